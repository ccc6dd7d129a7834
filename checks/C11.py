from vlib import *
from buildlib import *

main(lambda: run_histories("C11", ("saved",)))
