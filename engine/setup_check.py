"""setup: verify that the tools the checks need are present"""
import subprocess, sys
import z3
for c in (['clang++', '--version'], ['g++', '--version']):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL)
print('ok z3', z3.get_version_string())
