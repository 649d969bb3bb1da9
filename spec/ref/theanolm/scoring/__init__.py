#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""Modules related to text and word lattice scoring.
"""

from theanolm.scoring.textscorer import TextScorer
from theanolm.scoring.latticedecoder import LatticeDecoder
from theanolm.scoring.latticebatch import LatticeBatch
from theanolm.scoring.rescoredlattice import RescoredLattice
