"""builds the extractor (checks rebuild it themselves when it is missing)"""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import extract
print(extract.cxxdump()[0])
