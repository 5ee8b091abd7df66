"""Setup: only checks that the tools the checks drive are there."""
import shutil
import sys
missing = [t for t in ('goto-cc', 'goto-instrument', 'cbmc', 'gcc')
           if not shutil.which(t)]
if missing:
    print('missing tools:', missing)
    sys.exit(1)
print('setup: nothing to build')
