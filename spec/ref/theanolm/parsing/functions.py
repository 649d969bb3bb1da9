#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""Functions related to reading text.
"""

import gzip
import mmap

def utterance_from_line(line):
    """Converts a line of text, read from an input file, into a list of words.

    Start-of-sentence and end-of-sentece tokens (``<s>`` and ``</s>``) will be
    inserted at the beginning and the end of the list, if they're missing. If
    the line is empty, returns an empty list (instead of an empty sentence
    ``['<s>', '</s>']``).

    :type line: str or bytes
    :param line: a line of text (read from an input file)

    :rtype: list of strs
    :returns: list of words / tokens
    """

    if isinstance(line, bytes):
        line = line.decode('utf-8')
    line = line.rstrip()
    if not line:
        # empty line
        return []

    result = line.split()
    if result[0] != '<s>':
        result.insert(0, '<s>')
    if result[-1] != '</s>':
        result.append('</s>')

    return result

def map_text_file(input_file):
    """Creates a memory map of the content of a text file.

    The content of a gzip-compressed file is decompressed into memory.

    :type input_file: file object
    :param input_file: an input text file

    :rtype: mmap.mmap
    :returns: a memory map of the (decompressed) text
    """

    binary_file = getattr(input_file, 'buffer', input_file)
    if not isinstance(binary_file, gzip.GzipFile):
        return mmap.mmap(input_file.fileno(), 0, prot=mmap.PROT_READ)

    input_file.seek(0)
    data = binary_file.read()
    input_file.seek(0)
    result = mmap.mmap(-1, len(data))
    result.write(data)
    result.seek(0)
    return result

def find_sentence_starts(data):
    """Finds the positions inside a memory-mapped file, where the sentences
    (lines) start.

    TextIOWrapper disables tell() when readline() is called, so search for
    sentence starts in memory-mapped data.

    :type data: mmap.mmap
    :param data: memory-mapped data of the input file

    :rtype: list of ints
    :returns: a list of file offsets pointing to the next character from a
              newline (including file start and excluding file end)
    """

    result = [0]

    pos = 0
    while True:
        pos = data.find(b'\n', pos)
        if pos == -1:
            break
        pos += 1
        if pos < len(data):
            result.append(pos)

    return result
