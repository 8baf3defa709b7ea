import sys, os, threading
sys.dont_write_bytecode=True
sys.path.insert(0,os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'lib'))
