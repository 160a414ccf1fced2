import sys

from engine import harness

if __name__ == "__main__":
    if len(sys.argv) == 2:
        harness.replay_main(sys.argv[1])
