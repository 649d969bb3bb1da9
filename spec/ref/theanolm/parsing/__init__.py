#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""Modules that implement iterator classes and function related to parsing text.
"""

from theanolm.parsing.linearbatchiterator import LinearBatchIterator
from theanolm.parsing.shufflingbatchiterator import ShufflingBatchIterator
from theanolm.parsing.scoringbatchiterator import ScoringBatchIterator
from theanolm.parsing.functions import utterance_from_line, map_text_file
