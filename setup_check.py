#!/usr/bin/env python3
"""Nothing has to be built; says early if a tool that the checks need is missing."""
import shutil, sys
sys.dont_write_bytecode = True
need = ['sh', 'bash', 'grep', 'sed', 'sort', 'xargs', 'awk', 'diff', 'cut', 'tr', 'comm', 'uniq', 'tee', 'mkfifo', 'head', 'tail', 'wc', 'seq']
missing = [t for t in need if not shutil.which(t)]
print('missing tools:', missing or 'none')
sys.exit(1 if missing else 0)
