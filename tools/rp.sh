#!/bin/bash
# the newest replay of a property, printed
f=$(ls -t /verif/.work/replays/$1* | head -1); echo $f; python3 -c "
import json;d=json.load(open('$f'));print(d['message'] if 'message' in d else '');print(json.dumps(d['case']))"
