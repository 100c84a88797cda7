#!/usr/bin/env python3
"""Nothing is needed beyond what the sandbox has: every check builds what it uses. This only shows that the tools are there."""
import shutil, sys
missing = [t for t in ('cargo', 'verus', 'gcc') if not shutil.which(t)]
print('missing: %s' % missing if missing else 'ready')
sys.exit(1 if missing else 0)
