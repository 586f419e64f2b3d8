import sys

from pbt.core import child_entry

child_entry(sys.argv[1:])
