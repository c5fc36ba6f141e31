"""append text to specs.py / props.py before the final bracket: addp.py specs|props < text"""
import sys
f = {"specs": ("specs.py", "}"), "props": ("props.py", "]")}[sys.argv[1]]
s = open(f[0]).read(); i = s.rindex(f[1])
open(f[0], "w").write(s[:i] + sys.stdin.read() + f[1] + "\n")
