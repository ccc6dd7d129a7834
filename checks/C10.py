"""Builds over a cache report what a from-scratch build would, whatever the history."""
from vlib import *
from buildlib import *

main(lambda: run_histories("C10", ("verdict", "cache")))
