"""Records one KernelMatrix scenario in this process: python -m kmv.rerun scenario.json"""
import json
import sys

from . import km

if __name__ == '__main__':
    json.dump(km.Recorder(json.load(open(sys.argv[1]))).run(), sys.stdout)
