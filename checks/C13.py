from vlib import *
from buildlib import *

main(lambda: run_histories("C13", ("check",)))
