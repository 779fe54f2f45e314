"""Runs /repo's setup.py build_ext with the sources compiled in parallel.

usage: pybuild.py OUTDIR   (cwd: the repository)
"""
import os
import runpy
import sys
from concurrent.futures import ThreadPoolExecutor

import setuptools  # noqa: F401
from distutils.ccompiler import CCompiler


def compile(self, sources, output_dir=None, macros=None, include_dirs=None, debug=0,
            extra_preargs=None, extra_postargs=None, depends=None):
    macros, objects, extra_postargs, pp_opts, build = self._setup_compile(
        output_dir, macros, include_dirs, sources, depends, extra_postargs)
    cc_args = self._get_cc_args(pp_opts, debug, extra_preargs)
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '8'))) as pool:
        jobs = [pool.submit(self._compile, obj, *build[obj], cc_args, extra_postargs, pp_opts)
                for obj in objects if obj in build]
    for job in jobs:
        job.result()
    return objects


CCompiler.compile = compile
out = sys.argv[1]
sys.argv = ['setup.py', 'build_ext', '--force', '--build-temp', os.path.join(out, 'obj'),
            '--build-lib', os.path.join(out, 'lib')]
sys.path.insert(0, os.getcwd())
runpy.run_path('setup.py', run_name='__main__')
