"""Builds the _horus_api_cffi extension from /repo's current sources into the directory given (as the project's own build does)."""
import sys, os, subprocess, sysconfig
REPO = os.environ.get('VERIF_REPO', '/repo')
out = sys.argv[1]
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(REPO, 'horusdemodlib'))
os.chdir(REPO)
import horus_api_build as b
name, src, ext, kw = b.ffibuilder._assigned_source
c = os.path.join(out, name + '.c')
b.ffibuilder.emit_c_code(c)
cmd = ['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', os.path.join(out, name + sysconfig.get_config_var('EXT_SUFFIX')), c]
cmd += ['-I' + i for i in kw.get('include_dirs', [])] + ['-I' + sysconfig.get_paths()['include']] + kw.get('extra_compile_args', []) + kw['sources'] + ['-lm']
sys.exit(subprocess.call(cmd))
