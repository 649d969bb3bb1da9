#!/usr/bin/env python3
# -*- coding: utf-8 -*-
"""A module that defines the version number constant.
"""

__version__ = '1.3.2'
