import subprocess, sys
import z3
for c in (["clang++-18", "--version"], ["opt-18", "--version"], ["llvm-cxxfilt-18", "--version"]):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL)
sys.path.insert(0, ".")
from vc import engine, rununit
print("ok")
