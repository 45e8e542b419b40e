#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from sa import check
sys.exit(check.main(sys.argv[1:]))
