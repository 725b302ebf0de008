// Generated by tools/gen_dump.py from lib-ruby-parser-ast 0.55.0. Do not edit.
use lib_ruby_parser::Node;
use crate::out::Out;

pub fn dump(n: &Node, o: &mut Out) {
    match n {
        Node::Alias(x) => {
            o.open("Alias");
            o.loc("Alias", "keyword_l", &x.keyword_l);
            o.loc("Alias", "expression_l", &x.expression_l);
            dump(&x.to, o);
            o.sep();
            dump(&x.from, o);
            o.close();
        }
        Node::And(x) => {
            o.open("And");
            o.loc("And", "operator_l", &x.operator_l);
            o.loc("And", "expression_l", &x.expression_l);
            dump(&x.lhs, o);
            o.sep();
            dump(&x.rhs, o);
            o.close();
        }
        Node::AndAsgn(x) => {
            o.open("AndAsgn");
            o.loc("AndAsgn", "operator_l", &x.operator_l);
            o.loc("AndAsgn", "expression_l", &x.expression_l);
            dump(&x.recv, o);
            o.sep();
            dump(&x.value, o);
            o.close();
        }
        Node::Arg(x) => {
            o.open("Arg");
            o.loc("Arg", "expression_l", &x.expression_l);
            o.str(x.name.as_bytes());
            o.close();
        }
        Node::Args(x) => {
            o.open("Args");
            o.loc("Args", "expression_l", &x.expression_l);
            if let Some(l) = &x.begin_l { o.loc("Args", "begin_l", l); }
            if let Some(l) = &x.end_l { o.loc("Args", "end_l", l); }
            o.lopen(); for (i, c) in x.args.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::Array(x) => {
            o.open("Array");
            if let Some(l) = &x.begin_l { o.loc("Array", "begin_l", l); }
            if let Some(l) = &x.end_l { o.loc("Array", "end_l", l); }
            o.loc("Array", "expression_l", &x.expression_l);
            o.lopen(); for (i, c) in x.elements.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::ArrayPattern(x) => {
            o.open("ArrayPattern");
            if let Some(l) = &x.begin_l { o.loc("ArrayPattern", "begin_l", l); }
            if let Some(l) = &x.end_l { o.loc("ArrayPattern", "end_l", l); }
            o.loc("ArrayPattern", "expression_l", &x.expression_l);
            o.lopen(); for (i, c) in x.elements.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::ArrayPatternWithTail(x) => {
            o.open("ArrayPatternWithTail");
            if let Some(l) = &x.begin_l { o.loc("ArrayPatternWithTail", "begin_l", l); }
            if let Some(l) = &x.end_l { o.loc("ArrayPatternWithTail", "end_l", l); }
            o.loc("ArrayPatternWithTail", "expression_l", &x.expression_l);
            o.lopen(); for (i, c) in x.elements.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::BackRef(x) => {
            o.open("BackRef");
            o.loc("BackRef", "expression_l", &x.expression_l);
            o.str(x.name.as_bytes());
            o.close();
        }
        Node::Begin(x) => {
            o.open("Begin");
            if let Some(l) = &x.begin_l { o.loc("Begin", "begin_l", l); }
            if let Some(l) = &x.end_l { o.loc("Begin", "end_l", l); }
            o.loc("Begin", "expression_l", &x.expression_l);
            o.lopen(); for (i, c) in x.statements.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::Block(x) => {
            o.open("Block");
            o.loc("Block", "begin_l", &x.begin_l);
            o.loc("Block", "end_l", &x.end_l);
            o.loc("Block", "expression_l", &x.expression_l);
            dump(&x.call, o);
            o.sep();
            match &x.args { Some(c) => dump(c, o), None => o.nil() }
            o.sep();
            match &x.body { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::Blockarg(x) => {
            o.open("Blockarg");
            o.loc("Blockarg", "operator_l", &x.operator_l);
            if let Some(l) = &x.name_l { o.loc("Blockarg", "name_l", l); }
            o.loc("Blockarg", "expression_l", &x.expression_l);
            match &x.name { Some(c) => o.str(c.as_bytes()), None => o.nil() }
            o.close();
        }
        Node::BlockPass(x) => {
            o.open("BlockPass");
            o.loc("BlockPass", "operator_l", &x.operator_l);
            o.loc("BlockPass", "expression_l", &x.expression_l);
            match &x.value { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::Break(x) => {
            o.open("Break");
            o.loc("Break", "keyword_l", &x.keyword_l);
            o.loc("Break", "expression_l", &x.expression_l);
            o.lopen(); for (i, c) in x.args.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::Case(x) => {
            o.open("Case");
            o.loc("Case", "keyword_l", &x.keyword_l);
            if let Some(l) = &x.else_l { o.loc("Case", "else_l", l); }
            o.loc("Case", "end_l", &x.end_l);
            o.loc("Case", "expression_l", &x.expression_l);
            match &x.expr { Some(c) => dump(c, o), None => o.nil() }
            o.sep();
            o.lopen(); for (i, c) in x.when_bodies.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.sep();
            match &x.else_body { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::CaseMatch(x) => {
            o.open("CaseMatch");
            o.loc("CaseMatch", "keyword_l", &x.keyword_l);
            if let Some(l) = &x.else_l { o.loc("CaseMatch", "else_l", l); }
            o.loc("CaseMatch", "end_l", &x.end_l);
            o.loc("CaseMatch", "expression_l", &x.expression_l);
            dump(&x.expr, o);
            o.sep();
            o.lopen(); for (i, c) in x.in_bodies.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.sep();
            match &x.else_body { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::Casgn(x) => {
            o.open("Casgn");
            if let Some(l) = &x.double_colon_l { o.loc("Casgn", "double_colon_l", l); }
            o.loc("Casgn", "name_l", &x.name_l);
            if let Some(l) = &x.operator_l { o.loc("Casgn", "operator_l", l); }
            o.loc("Casgn", "expression_l", &x.expression_l);
            match &x.scope { Some(c) => dump(c, o), None => o.nil() }
            o.sep();
            o.str(x.name.as_bytes());
            o.sep();
            match &x.value { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::Cbase(x) => {
            o.open("Cbase");
            o.loc("Cbase", "expression_l", &x.expression_l);
            o.close();
        }
        Node::Class(x) => {
            o.open("Class");
            o.loc("Class", "keyword_l", &x.keyword_l);
            if let Some(l) = &x.operator_l { o.loc("Class", "operator_l", l); }
            o.loc("Class", "end_l", &x.end_l);
            o.loc("Class", "expression_l", &x.expression_l);
            dump(&x.name, o);
            o.sep();
            match &x.superclass { Some(c) => dump(c, o), None => o.nil() }
            o.sep();
            match &x.body { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::Complex(x) => {
            o.open("Complex");
            if let Some(l) = &x.operator_l { o.loc("Complex", "operator_l", l); }
            o.loc("Complex", "expression_l", &x.expression_l);
            o.str(x.value.as_bytes());
            o.close();
        }
        Node::Const(x) => {
            o.open("Const");
            if let Some(l) = &x.double_colon_l { o.loc("Const", "double_colon_l", l); }
            o.loc("Const", "name_l", &x.name_l);
            o.loc("Const", "expression_l", &x.expression_l);
            match &x.scope { Some(c) => dump(c, o), None => o.nil() }
            o.sep();
            o.str(x.name.as_bytes());
            o.close();
        }
        Node::ConstPattern(x) => {
            o.open("ConstPattern");
            o.loc("ConstPattern", "begin_l", &x.begin_l);
            o.loc("ConstPattern", "end_l", &x.end_l);
            o.loc("ConstPattern", "expression_l", &x.expression_l);
            dump(&x.const_, o);
            o.sep();
            dump(&x.pattern, o);
            o.close();
        }
        Node::CSend(x) => {
            o.open("CSend");
            o.loc("CSend", "dot_l", &x.dot_l);
            if let Some(l) = &x.selector_l { o.loc("CSend", "selector_l", l); }
            if let Some(l) = &x.begin_l { o.loc("CSend", "begin_l", l); }
            if let Some(l) = &x.end_l { o.loc("CSend", "end_l", l); }
            if let Some(l) = &x.operator_l { o.loc("CSend", "operator_l", l); }
            o.loc("CSend", "expression_l", &x.expression_l);
            dump(&x.recv, o);
            o.sep();
            o.str(x.method_name.as_bytes());
            o.sep();
            o.lopen(); for (i, c) in x.args.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::Cvar(x) => {
            o.open("Cvar");
            o.loc("Cvar", "expression_l", &x.expression_l);
            o.str(x.name.as_bytes());
            o.close();
        }
        Node::Cvasgn(x) => {
            o.open("Cvasgn");
            o.loc("Cvasgn", "name_l", &x.name_l);
            if let Some(l) = &x.operator_l { o.loc("Cvasgn", "operator_l", l); }
            o.loc("Cvasgn", "expression_l", &x.expression_l);
            o.str(x.name.as_bytes());
            o.sep();
            match &x.value { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::Def(x) => {
            o.open("Def");
            o.loc("Def", "keyword_l", &x.keyword_l);
            o.loc("Def", "name_l", &x.name_l);
            if let Some(l) = &x.end_l { o.loc("Def", "end_l", l); }
            if let Some(l) = &x.assignment_l { o.loc("Def", "assignment_l", l); }
            o.loc("Def", "expression_l", &x.expression_l);
            o.str(x.name.as_bytes());
            o.sep();
            match &x.args { Some(c) => dump(c, o), None => o.nil() }
            o.sep();
            match &x.body { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::Defined(x) => {
            o.open("Defined");
            o.loc("Defined", "keyword_l", &x.keyword_l);
            if let Some(l) = &x.begin_l { o.loc("Defined", "begin_l", l); }
            if let Some(l) = &x.end_l { o.loc("Defined", "end_l", l); }
            o.loc("Defined", "expression_l", &x.expression_l);
            dump(&x.value, o);
            o.close();
        }
        Node::Defs(x) => {
            o.open("Defs");
            o.loc("Defs", "keyword_l", &x.keyword_l);
            o.loc("Defs", "operator_l", &x.operator_l);
            o.loc("Defs", "name_l", &x.name_l);
            if let Some(l) = &x.assignment_l { o.loc("Defs", "assignment_l", l); }
            if let Some(l) = &x.end_l { o.loc("Defs", "end_l", l); }
            o.loc("Defs", "expression_l", &x.expression_l);
            dump(&x.definee, o);
            o.sep();
            o.str(x.name.as_bytes());
            o.sep();
            match &x.args { Some(c) => dump(c, o), None => o.nil() }
            o.sep();
            match &x.body { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::Dstr(x) => {
            o.open("Dstr");
            if let Some(l) = &x.begin_l { o.loc("Dstr", "begin_l", l); }
            if let Some(l) = &x.end_l { o.loc("Dstr", "end_l", l); }
            o.loc("Dstr", "expression_l", &x.expression_l);
            o.lopen(); for (i, c) in x.parts.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::Dsym(x) => {
            o.open("Dsym");
            if let Some(l) = &x.begin_l { o.loc("Dsym", "begin_l", l); }
            if let Some(l) = &x.end_l { o.loc("Dsym", "end_l", l); }
            o.loc("Dsym", "expression_l", &x.expression_l);
            o.lopen(); for (i, c) in x.parts.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::EFlipFlop(x) => {
            o.open("EFlipFlop");
            o.loc("EFlipFlop", "operator_l", &x.operator_l);
            o.loc("EFlipFlop", "expression_l", &x.expression_l);
            match &x.left { Some(c) => dump(c, o), None => o.nil() }
            o.sep();
            match &x.right { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::EmptyElse(x) => {
            o.open("EmptyElse");
            o.loc("EmptyElse", "expression_l", &x.expression_l);
            o.close();
        }
        Node::Encoding(x) => {
            o.open("Encoding");
            o.loc("Encoding", "expression_l", &x.expression_l);
            o.close();
        }
        Node::Ensure(x) => {
            o.open("Ensure");
            o.loc("Ensure", "keyword_l", &x.keyword_l);
            o.loc("Ensure", "expression_l", &x.expression_l);
            match &x.body { Some(c) => dump(c, o), None => o.nil() }
            o.sep();
            match &x.ensure { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::Erange(x) => {
            o.open("Erange");
            o.loc("Erange", "operator_l", &x.operator_l);
            o.loc("Erange", "expression_l", &x.expression_l);
            match &x.left { Some(c) => dump(c, o), None => o.nil() }
            o.sep();
            match &x.right { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::False(x) => {
            o.open("False");
            o.loc("False", "expression_l", &x.expression_l);
            o.close();
        }
        Node::File(x) => {
            o.open("File");
            o.loc("File", "expression_l", &x.expression_l);
            o.close();
        }
        Node::FindPattern(x) => {
            o.open("FindPattern");
            if let Some(l) = &x.begin_l { o.loc("FindPattern", "begin_l", l); }
            if let Some(l) = &x.end_l { o.loc("FindPattern", "end_l", l); }
            o.loc("FindPattern", "expression_l", &x.expression_l);
            o.lopen(); for (i, c) in x.elements.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::Float(x) => {
            o.open("Float");
            if let Some(l) = &x.operator_l { o.loc("Float", "operator_l", l); }
            o.loc("Float", "expression_l", &x.expression_l);
            o.str(x.value.as_bytes());
            o.close();
        }
        Node::For(x) => {
            o.open("For");
            o.loc("For", "keyword_l", &x.keyword_l);
            o.loc("For", "operator_l", &x.operator_l);
            o.loc("For", "begin_l", &x.begin_l);
            o.loc("For", "end_l", &x.end_l);
            o.loc("For", "expression_l", &x.expression_l);
            dump(&x.iterator, o);
            o.sep();
            dump(&x.iteratee, o);
            o.sep();
            match &x.body { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::ForwardArg(x) => {
            o.open("ForwardArg");
            o.loc("ForwardArg", "expression_l", &x.expression_l);
            o.close();
        }
        Node::ForwardedArgs(x) => {
            o.open("ForwardedArgs");
            o.loc("ForwardedArgs", "expression_l", &x.expression_l);
            o.close();
        }
        Node::Gvar(x) => {
            o.open("Gvar");
            o.loc("Gvar", "expression_l", &x.expression_l);
            o.str(x.name.as_bytes());
            o.close();
        }
        Node::Gvasgn(x) => {
            o.open("Gvasgn");
            o.loc("Gvasgn", "name_l", &x.name_l);
            if let Some(l) = &x.operator_l { o.loc("Gvasgn", "operator_l", l); }
            o.loc("Gvasgn", "expression_l", &x.expression_l);
            o.str(x.name.as_bytes());
            o.sep();
            match &x.value { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::Hash(x) => {
            o.open("Hash");
            if let Some(l) = &x.begin_l { o.loc("Hash", "begin_l", l); }
            if let Some(l) = &x.end_l { o.loc("Hash", "end_l", l); }
            o.loc("Hash", "expression_l", &x.expression_l);
            o.lopen(); for (i, c) in x.pairs.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::HashPattern(x) => {
            o.open("HashPattern");
            if let Some(l) = &x.begin_l { o.loc("HashPattern", "begin_l", l); }
            if let Some(l) = &x.end_l { o.loc("HashPattern", "end_l", l); }
            o.loc("HashPattern", "expression_l", &x.expression_l);
            o.lopen(); for (i, c) in x.elements.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::Heredoc(x) => {
            o.open("Heredoc");
            o.loc("Heredoc", "heredoc_body_l", &x.heredoc_body_l);
            o.loc("Heredoc", "heredoc_end_l", &x.heredoc_end_l);
            o.loc("Heredoc", "expression_l", &x.expression_l);
            o.lopen(); for (i, c) in x.parts.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::If(x) => {
            o.open("If");
            o.loc("If", "keyword_l", &x.keyword_l);
            o.loc("If", "begin_l", &x.begin_l);
            if let Some(l) = &x.else_l { o.loc("If", "else_l", l); }
            if let Some(l) = &x.end_l { o.loc("If", "end_l", l); }
            o.loc("If", "expression_l", &x.expression_l);
            dump(&x.cond, o);
            o.sep();
            match &x.if_true { Some(c) => dump(c, o), None => o.nil() }
            o.sep();
            match &x.if_false { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::IfGuard(x) => {
            o.open("IfGuard");
            o.loc("IfGuard", "keyword_l", &x.keyword_l);
            o.loc("IfGuard", "expression_l", &x.expression_l);
            dump(&x.cond, o);
            o.close();
        }
        Node::IFlipFlop(x) => {
            o.open("IFlipFlop");
            o.loc("IFlipFlop", "operator_l", &x.operator_l);
            o.loc("IFlipFlop", "expression_l", &x.expression_l);
            match &x.left { Some(c) => dump(c, o), None => o.nil() }
            o.sep();
            match &x.right { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::IfMod(x) => {
            o.open("IfMod");
            o.loc("IfMod", "keyword_l", &x.keyword_l);
            o.loc("IfMod", "expression_l", &x.expression_l);
            dump(&x.cond, o);
            o.sep();
            match &x.if_true { Some(c) => dump(c, o), None => o.nil() }
            o.sep();
            match &x.if_false { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::IfTernary(x) => {
            o.open("IfTernary");
            o.loc("IfTernary", "question_l", &x.question_l);
            o.loc("IfTernary", "colon_l", &x.colon_l);
            o.loc("IfTernary", "expression_l", &x.expression_l);
            dump(&x.cond, o);
            o.sep();
            dump(&x.if_true, o);
            o.sep();
            dump(&x.if_false, o);
            o.close();
        }
        Node::Index(x) => {
            o.open("Index");
            o.loc("Index", "begin_l", &x.begin_l);
            o.loc("Index", "end_l", &x.end_l);
            o.loc("Index", "expression_l", &x.expression_l);
            dump(&x.recv, o);
            o.sep();
            o.lopen(); for (i, c) in x.indexes.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::IndexAsgn(x) => {
            o.open("IndexAsgn");
            o.loc("IndexAsgn", "begin_l", &x.begin_l);
            o.loc("IndexAsgn", "end_l", &x.end_l);
            if let Some(l) = &x.operator_l { o.loc("IndexAsgn", "operator_l", l); }
            o.loc("IndexAsgn", "expression_l", &x.expression_l);
            dump(&x.recv, o);
            o.sep();
            o.lopen(); for (i, c) in x.indexes.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.sep();
            match &x.value { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::InPattern(x) => {
            o.open("InPattern");
            o.loc("InPattern", "keyword_l", &x.keyword_l);
            o.loc("InPattern", "begin_l", &x.begin_l);
            o.loc("InPattern", "expression_l", &x.expression_l);
            dump(&x.pattern, o);
            o.sep();
            match &x.guard { Some(c) => dump(c, o), None => o.nil() }
            o.sep();
            match &x.body { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::Int(x) => {
            o.open("Int");
            if let Some(l) = &x.operator_l { o.loc("Int", "operator_l", l); }
            o.loc("Int", "expression_l", &x.expression_l);
            o.str(x.value.as_bytes());
            o.close();
        }
        Node::Irange(x) => {
            o.open("Irange");
            o.loc("Irange", "operator_l", &x.operator_l);
            o.loc("Irange", "expression_l", &x.expression_l);
            match &x.left { Some(c) => dump(c, o), None => o.nil() }
            o.sep();
            match &x.right { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::Ivar(x) => {
            o.open("Ivar");
            o.loc("Ivar", "expression_l", &x.expression_l);
            o.str(x.name.as_bytes());
            o.close();
        }
        Node::Ivasgn(x) => {
            o.open("Ivasgn");
            o.loc("Ivasgn", "name_l", &x.name_l);
            if let Some(l) = &x.operator_l { o.loc("Ivasgn", "operator_l", l); }
            o.loc("Ivasgn", "expression_l", &x.expression_l);
            o.str(x.name.as_bytes());
            o.sep();
            match &x.value { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::Kwarg(x) => {
            o.open("Kwarg");
            o.loc("Kwarg", "name_l", &x.name_l);
            o.loc("Kwarg", "expression_l", &x.expression_l);
            o.str(x.name.as_bytes());
            o.close();
        }
        Node::Kwargs(x) => {
            o.open("Kwargs");
            o.loc("Kwargs", "expression_l", &x.expression_l);
            o.lopen(); for (i, c) in x.pairs.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::KwBegin(x) => {
            o.open("KwBegin");
            if let Some(l) = &x.begin_l { o.loc("KwBegin", "begin_l", l); }
            if let Some(l) = &x.end_l { o.loc("KwBegin", "end_l", l); }
            o.loc("KwBegin", "expression_l", &x.expression_l);
            o.lopen(); for (i, c) in x.statements.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::Kwnilarg(x) => {
            o.open("Kwnilarg");
            o.loc("Kwnilarg", "name_l", &x.name_l);
            o.loc("Kwnilarg", "expression_l", &x.expression_l);
            o.close();
        }
        Node::Kwoptarg(x) => {
            o.open("Kwoptarg");
            o.loc("Kwoptarg", "name_l", &x.name_l);
            o.loc("Kwoptarg", "expression_l", &x.expression_l);
            o.str(x.name.as_bytes());
            o.sep();
            dump(&x.default, o);
            o.close();
        }
        Node::Kwrestarg(x) => {
            o.open("Kwrestarg");
            o.loc("Kwrestarg", "operator_l", &x.operator_l);
            if let Some(l) = &x.name_l { o.loc("Kwrestarg", "name_l", l); }
            o.loc("Kwrestarg", "expression_l", &x.expression_l);
            match &x.name { Some(c) => o.str(c.as_bytes()), None => o.nil() }
            o.close();
        }
        Node::Kwsplat(x) => {
            o.open("Kwsplat");
            o.loc("Kwsplat", "operator_l", &x.operator_l);
            o.loc("Kwsplat", "expression_l", &x.expression_l);
            dump(&x.value, o);
            o.close();
        }
        Node::Lambda(x) => {
            o.open("Lambda");
            o.loc("Lambda", "expression_l", &x.expression_l);
            o.close();
        }
        Node::Line(x) => {
            o.open("Line");
            o.loc("Line", "expression_l", &x.expression_l);
            o.close();
        }
        Node::Lvar(x) => {
            o.open("Lvar");
            o.loc("Lvar", "expression_l", &x.expression_l);
            o.str(x.name.as_bytes());
            o.close();
        }
        Node::Lvasgn(x) => {
            o.open("Lvasgn");
            o.loc("Lvasgn", "name_l", &x.name_l);
            if let Some(l) = &x.operator_l { o.loc("Lvasgn", "operator_l", l); }
            o.loc("Lvasgn", "expression_l", &x.expression_l);
            o.str(x.name.as_bytes());
            o.sep();
            match &x.value { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::Masgn(x) => {
            o.open("Masgn");
            o.loc("Masgn", "operator_l", &x.operator_l);
            o.loc("Masgn", "expression_l", &x.expression_l);
            dump(&x.lhs, o);
            o.sep();
            dump(&x.rhs, o);
            o.close();
        }
        Node::MatchAlt(x) => {
            o.open("MatchAlt");
            o.loc("MatchAlt", "operator_l", &x.operator_l);
            o.loc("MatchAlt", "expression_l", &x.expression_l);
            dump(&x.lhs, o);
            o.sep();
            dump(&x.rhs, o);
            o.close();
        }
        Node::MatchAs(x) => {
            o.open("MatchAs");
            o.loc("MatchAs", "operator_l", &x.operator_l);
            o.loc("MatchAs", "expression_l", &x.expression_l);
            dump(&x.value, o);
            o.sep();
            dump(&x.as_, o);
            o.close();
        }
        Node::MatchCurrentLine(x) => {
            o.open("MatchCurrentLine");
            o.loc("MatchCurrentLine", "expression_l", &x.expression_l);
            dump(&x.re, o);
            o.close();
        }
        Node::MatchNilPattern(x) => {
            o.open("MatchNilPattern");
            o.loc("MatchNilPattern", "operator_l", &x.operator_l);
            o.loc("MatchNilPattern", "name_l", &x.name_l);
            o.loc("MatchNilPattern", "expression_l", &x.expression_l);
            o.close();
        }
        Node::MatchPattern(x) => {
            o.open("MatchPattern");
            o.loc("MatchPattern", "operator_l", &x.operator_l);
            o.loc("MatchPattern", "expression_l", &x.expression_l);
            dump(&x.value, o);
            o.sep();
            dump(&x.pattern, o);
            o.close();
        }
        Node::MatchPatternP(x) => {
            o.open("MatchPatternP");
            o.loc("MatchPatternP", "operator_l", &x.operator_l);
            o.loc("MatchPatternP", "expression_l", &x.expression_l);
            dump(&x.value, o);
            o.sep();
            dump(&x.pattern, o);
            o.close();
        }
        Node::MatchRest(x) => {
            o.open("MatchRest");
            o.loc("MatchRest", "operator_l", &x.operator_l);
            o.loc("MatchRest", "expression_l", &x.expression_l);
            match &x.name { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::MatchVar(x) => {
            o.open("MatchVar");
            o.loc("MatchVar", "name_l", &x.name_l);
            o.loc("MatchVar", "expression_l", &x.expression_l);
            o.str(x.name.as_bytes());
            o.close();
        }
        Node::MatchWithLvasgn(x) => {
            o.open("MatchWithLvasgn");
            o.loc("MatchWithLvasgn", "operator_l", &x.operator_l);
            o.loc("MatchWithLvasgn", "expression_l", &x.expression_l);
            dump(&x.re, o);
            o.sep();
            dump(&x.value, o);
            o.close();
        }
        Node::Mlhs(x) => {
            o.open("Mlhs");
            if let Some(l) = &x.begin_l { o.loc("Mlhs", "begin_l", l); }
            if let Some(l) = &x.end_l { o.loc("Mlhs", "end_l", l); }
            o.loc("Mlhs", "expression_l", &x.expression_l);
            o.lopen(); for (i, c) in x.items.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::Module(x) => {
            o.open("Module");
            o.loc("Module", "keyword_l", &x.keyword_l);
            o.loc("Module", "end_l", &x.end_l);
            o.loc("Module", "expression_l", &x.expression_l);
            dump(&x.name, o);
            o.sep();
            match &x.body { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::Next(x) => {
            o.open("Next");
            o.loc("Next", "keyword_l", &x.keyword_l);
            o.loc("Next", "expression_l", &x.expression_l);
            o.lopen(); for (i, c) in x.args.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::Nil(x) => {
            o.open("Nil");
            o.loc("Nil", "expression_l", &x.expression_l);
            o.close();
        }
        Node::NthRef(x) => {
            o.open("NthRef");
            o.loc("NthRef", "expression_l", &x.expression_l);
            o.str(x.name.as_bytes());
            o.close();
        }
        Node::Numblock(x) => {
            o.open("Numblock");
            o.loc("Numblock", "begin_l", &x.begin_l);
            o.loc("Numblock", "end_l", &x.end_l);
            o.loc("Numblock", "expression_l", &x.expression_l);
            dump(&x.call, o);
            o.sep();
            o.num(x.numargs as usize);
            o.sep();
            dump(&x.body, o);
            o.close();
        }
        Node::OpAsgn(x) => {
            o.open("OpAsgn");
            o.loc("OpAsgn", "operator_l", &x.operator_l);
            o.loc("OpAsgn", "expression_l", &x.expression_l);
            dump(&x.recv, o);
            o.sep();
            o.str(x.operator.as_bytes());
            o.sep();
            dump(&x.value, o);
            o.close();
        }
        Node::Optarg(x) => {
            o.open("Optarg");
            o.loc("Optarg", "name_l", &x.name_l);
            o.loc("Optarg", "operator_l", &x.operator_l);
            o.loc("Optarg", "expression_l", &x.expression_l);
            o.str(x.name.as_bytes());
            o.sep();
            dump(&x.default, o);
            o.close();
        }
        Node::Or(x) => {
            o.open("Or");
            o.loc("Or", "operator_l", &x.operator_l);
            o.loc("Or", "expression_l", &x.expression_l);
            dump(&x.lhs, o);
            o.sep();
            dump(&x.rhs, o);
            o.close();
        }
        Node::OrAsgn(x) => {
            o.open("OrAsgn");
            o.loc("OrAsgn", "operator_l", &x.operator_l);
            o.loc("OrAsgn", "expression_l", &x.expression_l);
            dump(&x.recv, o);
            o.sep();
            dump(&x.value, o);
            o.close();
        }
        Node::Pair(x) => {
            o.open("Pair");
            o.loc("Pair", "operator_l", &x.operator_l);
            o.loc("Pair", "expression_l", &x.expression_l);
            dump(&x.key, o);
            o.sep();
            dump(&x.value, o);
            o.close();
        }
        Node::Pin(x) => {
            o.open("Pin");
            o.loc("Pin", "selector_l", &x.selector_l);
            o.loc("Pin", "expression_l", &x.expression_l);
            dump(&x.var, o);
            o.close();
        }
        Node::Postexe(x) => {
            o.open("Postexe");
            o.loc("Postexe", "keyword_l", &x.keyword_l);
            o.loc("Postexe", "begin_l", &x.begin_l);
            o.loc("Postexe", "end_l", &x.end_l);
            o.loc("Postexe", "expression_l", &x.expression_l);
            match &x.body { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::Preexe(x) => {
            o.open("Preexe");
            o.loc("Preexe", "keyword_l", &x.keyword_l);
            o.loc("Preexe", "begin_l", &x.begin_l);
            o.loc("Preexe", "end_l", &x.end_l);
            o.loc("Preexe", "expression_l", &x.expression_l);
            match &x.body { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::Procarg0(x) => {
            o.open("Procarg0");
            if let Some(l) = &x.begin_l { o.loc("Procarg0", "begin_l", l); }
            if let Some(l) = &x.end_l { o.loc("Procarg0", "end_l", l); }
            o.loc("Procarg0", "expression_l", &x.expression_l);
            o.lopen(); for (i, c) in x.args.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::Rational(x) => {
            o.open("Rational");
            if let Some(l) = &x.operator_l { o.loc("Rational", "operator_l", l); }
            o.loc("Rational", "expression_l", &x.expression_l);
            o.str(x.value.as_bytes());
            o.close();
        }
        Node::Redo(x) => {
            o.open("Redo");
            o.loc("Redo", "expression_l", &x.expression_l);
            o.close();
        }
        Node::Regexp(x) => {
            o.open("Regexp");
            o.loc("Regexp", "begin_l", &x.begin_l);
            o.loc("Regexp", "end_l", &x.end_l);
            o.loc("Regexp", "expression_l", &x.expression_l);
            o.lopen(); for (i, c) in x.parts.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.sep();
            match &x.options { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::RegOpt(x) => {
            o.open("RegOpt");
            o.loc("RegOpt", "expression_l", &x.expression_l);
            match &x.options { Some(c) => o.str(c.as_bytes()), None => o.nil() }
            o.close();
        }
        Node::Rescue(x) => {
            o.open("Rescue");
            if let Some(l) = &x.else_l { o.loc("Rescue", "else_l", l); }
            o.loc("Rescue", "expression_l", &x.expression_l);
            match &x.body { Some(c) => dump(c, o), None => o.nil() }
            o.sep();
            o.lopen(); for (i, c) in x.rescue_bodies.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.sep();
            match &x.else_ { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::RescueBody(x) => {
            o.open("RescueBody");
            o.loc("RescueBody", "keyword_l", &x.keyword_l);
            if let Some(l) = &x.assoc_l { o.loc("RescueBody", "assoc_l", l); }
            if let Some(l) = &x.begin_l { o.loc("RescueBody", "begin_l", l); }
            o.loc("RescueBody", "expression_l", &x.expression_l);
            match &x.exc_list { Some(c) => dump(c, o), None => o.nil() }
            o.sep();
            match &x.exc_var { Some(c) => dump(c, o), None => o.nil() }
            o.sep();
            match &x.body { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::Restarg(x) => {
            o.open("Restarg");
            o.loc("Restarg", "operator_l", &x.operator_l);
            if let Some(l) = &x.name_l { o.loc("Restarg", "name_l", l); }
            o.loc("Restarg", "expression_l", &x.expression_l);
            match &x.name { Some(c) => o.str(c.as_bytes()), None => o.nil() }
            o.close();
        }
        Node::Retry(x) => {
            o.open("Retry");
            o.loc("Retry", "expression_l", &x.expression_l);
            o.close();
        }
        Node::Return(x) => {
            o.open("Return");
            o.loc("Return", "keyword_l", &x.keyword_l);
            o.loc("Return", "expression_l", &x.expression_l);
            o.lopen(); for (i, c) in x.args.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::SClass(x) => {
            o.open("SClass");
            o.loc("SClass", "keyword_l", &x.keyword_l);
            o.loc("SClass", "operator_l", &x.operator_l);
            o.loc("SClass", "end_l", &x.end_l);
            o.loc("SClass", "expression_l", &x.expression_l);
            dump(&x.expr, o);
            o.sep();
            match &x.body { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::Self_(x) => {
            o.open("Self_");
            o.loc("Self_", "expression_l", &x.expression_l);
            o.close();
        }
        Node::Send(x) => {
            o.open("Send");
            if let Some(l) = &x.dot_l { o.loc("Send", "dot_l", l); }
            if let Some(l) = &x.selector_l { o.loc("Send", "selector_l", l); }
            if let Some(l) = &x.begin_l { o.loc("Send", "begin_l", l); }
            if let Some(l) = &x.end_l { o.loc("Send", "end_l", l); }
            if let Some(l) = &x.operator_l { o.loc("Send", "operator_l", l); }
            o.loc("Send", "expression_l", &x.expression_l);
            match &x.recv { Some(c) => dump(c, o), None => o.nil() }
            o.sep();
            o.str(x.method_name.as_bytes());
            o.sep();
            o.lopen(); for (i, c) in x.args.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::Shadowarg(x) => {
            o.open("Shadowarg");
            o.loc("Shadowarg", "expression_l", &x.expression_l);
            o.str(x.name.as_bytes());
            o.close();
        }
        Node::Splat(x) => {
            o.open("Splat");
            o.loc("Splat", "operator_l", &x.operator_l);
            o.loc("Splat", "expression_l", &x.expression_l);
            match &x.value { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::Str(x) => {
            o.open("Str");
            if let Some(l) = &x.begin_l { o.loc("Str", "begin_l", l); }
            if let Some(l) = &x.end_l { o.loc("Str", "end_l", l); }
            o.loc("Str", "expression_l", &x.expression_l);
            o.str(x.value.as_raw());
            o.close();
        }
        Node::Super(x) => {
            o.open("Super");
            o.loc("Super", "keyword_l", &x.keyword_l);
            if let Some(l) = &x.begin_l { o.loc("Super", "begin_l", l); }
            if let Some(l) = &x.end_l { o.loc("Super", "end_l", l); }
            o.loc("Super", "expression_l", &x.expression_l);
            o.lopen(); for (i, c) in x.args.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::Sym(x) => {
            o.open("Sym");
            if let Some(l) = &x.begin_l { o.loc("Sym", "begin_l", l); }
            if let Some(l) = &x.end_l { o.loc("Sym", "end_l", l); }
            o.loc("Sym", "expression_l", &x.expression_l);
            o.str(x.name.as_raw());
            o.close();
        }
        Node::True(x) => {
            o.open("True");
            o.loc("True", "expression_l", &x.expression_l);
            o.close();
        }
        Node::Undef(x) => {
            o.open("Undef");
            o.loc("Undef", "keyword_l", &x.keyword_l);
            o.loc("Undef", "expression_l", &x.expression_l);
            o.lopen(); for (i, c) in x.names.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::UnlessGuard(x) => {
            o.open("UnlessGuard");
            o.loc("UnlessGuard", "keyword_l", &x.keyword_l);
            o.loc("UnlessGuard", "expression_l", &x.expression_l);
            dump(&x.cond, o);
            o.close();
        }
        Node::Until(x) => {
            o.open("Until");
            o.loc("Until", "keyword_l", &x.keyword_l);
            if let Some(l) = &x.begin_l { o.loc("Until", "begin_l", l); }
            if let Some(l) = &x.end_l { o.loc("Until", "end_l", l); }
            o.loc("Until", "expression_l", &x.expression_l);
            dump(&x.cond, o);
            o.sep();
            match &x.body { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::UntilPost(x) => {
            o.open("UntilPost");
            o.loc("UntilPost", "keyword_l", &x.keyword_l);
            o.loc("UntilPost", "expression_l", &x.expression_l);
            dump(&x.cond, o);
            o.sep();
            dump(&x.body, o);
            o.close();
        }
        Node::When(x) => {
            o.open("When");
            o.loc("When", "keyword_l", &x.keyword_l);
            o.loc("When", "begin_l", &x.begin_l);
            o.loc("When", "expression_l", &x.expression_l);
            o.lopen(); for (i, c) in x.patterns.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.sep();
            match &x.body { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::While(x) => {
            o.open("While");
            o.loc("While", "keyword_l", &x.keyword_l);
            if let Some(l) = &x.begin_l { o.loc("While", "begin_l", l); }
            if let Some(l) = &x.end_l { o.loc("While", "end_l", l); }
            o.loc("While", "expression_l", &x.expression_l);
            dump(&x.cond, o);
            o.sep();
            match &x.body { Some(c) => dump(c, o), None => o.nil() }
            o.close();
        }
        Node::WhilePost(x) => {
            o.open("WhilePost");
            o.loc("WhilePost", "keyword_l", &x.keyword_l);
            o.loc("WhilePost", "expression_l", &x.expression_l);
            dump(&x.cond, o);
            o.sep();
            dump(&x.body, o);
            o.close();
        }
        Node::XHeredoc(x) => {
            o.open("XHeredoc");
            o.loc("XHeredoc", "heredoc_body_l", &x.heredoc_body_l);
            o.loc("XHeredoc", "heredoc_end_l", &x.heredoc_end_l);
            o.loc("XHeredoc", "expression_l", &x.expression_l);
            o.lopen(); for (i, c) in x.parts.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::Xstr(x) => {
            o.open("Xstr");
            o.loc("Xstr", "begin_l", &x.begin_l);
            o.loc("Xstr", "end_l", &x.end_l);
            o.loc("Xstr", "expression_l", &x.expression_l);
            o.lopen(); for (i, c) in x.parts.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::Yield(x) => {
            o.open("Yield");
            o.loc("Yield", "keyword_l", &x.keyword_l);
            if let Some(l) = &x.begin_l { o.loc("Yield", "begin_l", l); }
            if let Some(l) = &x.end_l { o.loc("Yield", "end_l", l); }
            o.loc("Yield", "expression_l", &x.expression_l);
            o.lopen(); for (i, c) in x.args.iter().enumerate() { if i > 0 { o.sep(); } dump(c, o); } o.lclose();
            o.close();
        }
        Node::ZSuper(x) => {
            o.open("ZSuper");
            o.loc("ZSuper", "expression_l", &x.expression_l);
            o.close();
        }
    }
}
