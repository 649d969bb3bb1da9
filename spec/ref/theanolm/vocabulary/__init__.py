#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""Modules related to vocabulary, word classes, and word statistics.
"""

from theanolm.vocabulary.vocabulary import Vocabulary
from theanolm.vocabulary.statistics import compute_word_counts, BigramStatistics
