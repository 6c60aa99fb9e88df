#!/usr/bin/env python3
"""Writes known_findings.json: fixed defects from /repo's history, and the findings listed below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.check_output(['git','-C','/repo','log','--format=%h %s','c08149a..HEAD'],text=True).splitlines()
pm = {'c3f0b15':'C07','fa265c1':'C10','1b9ab8c':'C08','418e45b':'C08','b850430':'C09','8efc305':'C11','b82f290':'C25','1ad2918':'C05','01f6ae5':'C09','cb0ba20':'C22','f3a4c73':'C22','7c6d102':'C16','ac4ac33':'C23','986a6f5':'C20','d05024f':'C22','9e14c97':'C22','7c2d7b8':'C22','cfd0c77':'C22','09a7e5d':'C28','c8b4cdb':'C06','4348cc8':'C27','17a858d':'C27','e021ac2':'C27','b90b77c':'C27','8b99ed2': 'C27', '25c374d': 'C08', '2b256ad': 'C06', '5313c8c': 'C04', 'ce63175': 'C05', '392088a': 'C01', '8ced588': 'C22', '49c9f5d': 'C25', '5f9e220': 'C05', 'b6e4dc3': 'C27'}
def k(id, what, prop="C08", cls="left"):
    return {"status":"known","property":prop,"id":id,"class":cls,"replay":"findings/%s.json" % id,"what":what}
f = [
 k("c08_bool","a stored query used as a truth value (WHERE q, NOT q, if(condition=q)) is evaluated without the query's context: after a cancellation its source keeps running (types.Scope.Bool has no context)"),
 k("c08_member","a stored query whose member or element is taken (q.A, q[0]) is evaluated without the query's context: after a cancellation its source keeps running (types.Scope.Associative has no context)"),
 k("c08_add","a stored query used as an operand of + is evaluated without the query's context: after a cancellation its source keeps running (types.Scope.Add has no context)"),
 k("c25_host","a call remembers the copy of the host's function it called first (_SymbolRef.callFunction): evaluated again in a scope which registers another host function under that name, the parsed query still calls the first one","C25","rows"),
 k("c04_text","GROUP BY keys of different types which print the same fall into one group (1 and '1', TRUE and 'true', NULL and 'Null'): the interface of groupers names bins by text","C04","rows"),
 k("c22_float","a float with a whole value comes back from a checkpoint as an integer: 2.0 is written as 2 (LET V0 <= 2.0; 'str' < V0 and V0 + 9007199254740993 differ in the restored scope)","C22","rows"),
]
for l in log:
    h,s = l.split(' ',1)
    if not s.startswith('fix: '): continue
    s = s[5:]
    f.append({"status":"fixed","property":pm[h[:7]],"commit":h,"what":s,"line":"fixed: property=%s %s %s" % (pm[h[:7]],h,s)})
json.dump({"findings":f},open(V + '/known_findings.json','w'),indent=1)
