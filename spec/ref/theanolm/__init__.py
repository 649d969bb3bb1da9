#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""A package that provides functionality for training and applying neural
network language models.
"""

from theanolm.vocabulary import Vocabulary
from theanolm.network import Network, Architecture, RecurrentState
from theanolm.scoring import TextScorer
from theanolm.textsampler import TextSampler
from theanolm.version import __version__
