#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""Modules that implement a neural network and its layers.
"""

from theanolm.network.network import Network
from theanolm.network.architecture import Architecture
from theanolm.network.recurrentstate import RecurrentState
