"""Checks that the tools are there.  The checks build everything else, from
/repo's working tree, each time that they are run."""
import shutil
import sys
missing = [t for t in ('clang++-20', 'protoc', 'ld.lld-20')
           if shutil.which(t) is None]
print('missing: ' + ', '.join(missing) if missing else 'ok')
sys.exit(1 if missing else 0)
