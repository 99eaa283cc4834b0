#!/usr/bin/env python3
"""Make an ordinary module src/double_src of the source of the proc-macro crate mockall_double."""
import os, re, shutil
D, S = 'src/double_src', '/repo/mockall_double/src'
shutil.rmtree(D, ignore_errors=True)
shutil.copytree(S, D)
for r, _, fs in os.walk(D):
    for f in fs:
        p = os.path.join(r, f)
        s = open(p).read()
        s = re.sub(r'^#!\[.*?\]\s*$', '', s, flags=re.M)
        s = re.sub(r'^//!.*$', '', s, flags=re.M)
        s = re.sub(r'^\s*extern crate proc_macro;', '', s, flags=re.M)
        s = re.sub(r'#\[proc_macro_attribute\]', '', s)
        s = re.sub(r'\bproc_macro::', 'proc_macro2::', s)
        s = re.sub(r'(?<!\$)\bcrate::', 'crate::double_src::', s)
        open(p, 'w').write(s)
os.rename(D + '/lib.rs', D + '/mod.rs')
