"""C21, C22, C25: the real command-line program."""
import sys
from vlib import Driver

if __name__ == "__main__":
    d = Driver()
    __import__(d.pid.lower()).main(d)
    d.end()
