#!/usr/bin/env python3
"""Generates harness/src/dump.rs from the (external, pinned) lib-ruby-parser-ast crate's node types.
Run by hand when that crate changes; the result is committed."""
import re,glob,os,sys
root=glob.glob(os.path.expanduser('~/.cargo/registry/src/*/lib-ruby-parser-ast-0.55.0'))[0]
types=[]
for f in sorted(glob.glob(root+'/src/nodes/types/*.rs')):
    src=open(f).read()
    m=re.search(r'pub struct (\w+) \{(.*?)\n\}',src,re.S)
    if not m: continue
    fields=re.findall(r'pub (\w+): ([^\n]+),\n',m.group(2))
    types.append((m.group(1),fields))
enum=open(root+'/src/nodes/node_enum.rs').read()
variants=re.findall(r'^    (\w+)\((\w+)\),',enum,re.M)
bytype={t:f for t,f in types}
o=['// Generated by tools/gen_dump.py from lib-ruby-parser-ast 0.55.0. Do not edit.',
'use lib_ruby_parser::Node;','use crate::out::Out;','',
'pub fn dump(n: &Node, o: &mut Out) {','    match n {']
for v,t in variants:
    fs=bytype[t]
    o.append(f'        Node::{v}(x) => {{')
    o.append(f'            o.open("{v}");')
    for name,ty in fs:
        ty=ty.strip()
        fld=name
        if ty=='Loc': o.append(f'            o.loc("{v}", "{name}", &x.{fld});')
        elif ty=='Option<Loc>': o.append(f'            if let Some(l) = &x.{fld} {{ o.loc("{v}", "{name}", l); }}')
    first=True
    for name,ty in fs:
        ty=ty.strip()
        if ty in('Loc','Option<Loc>'): continue
        if not first: o.append("            o.sep();")
        first=False
        if ty=='Box<Node>': o.append(f'            dump(&x.{name}, o);')
        elif ty=='Option<Box<Node>>': o.append(f'            match &x.{name} {{ Some(c) => dump(c, o), None => o.nil() }}')
        elif ty=='Vec<Node>': o.append(f'            o.lopen(); for (i, c) in x.{name}.iter().enumerate() {{ if i > 0 {{ o.sep(); }} dump(c, o); }} o.lclose();')
        elif ty=='String': o.append(f'            o.str(x.{name}.as_bytes());')
        elif ty=='Option<String>': o.append(f'            match &x.{name} {{ Some(c) => o.str(c.as_bytes()), None => o.nil() }}')
        elif ty=='Bytes': o.append(f'            o.str(x.{name}.as_raw());')
        elif ty=='u8': o.append(f'            o.num(x.{name} as usize);')
        else: raise Exception(ty)
    o.append('            o.close();')
    o.append('        }')
o+=['    }','}','']
open(os.path.dirname(os.path.abspath(__file__))+'/../harness/src/dump.rs','w').write('\n'.join(o))
for t,f in types: print(t,'|',' '.join(f'{n}:{ty}' for n,ty in f))
