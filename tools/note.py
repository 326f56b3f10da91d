#!/usr/bin/env python3
"""note.py ID technique note : updates checks/notes.json"""
import json, sys
p='/verif/checks/notes.json'; d=json.load(open(p)); d[sys.argv[1]]={"technique":sys.argv[2],"note":sys.argv[3]}; json.dump(d,open(p,'w'),indent=1)
