"""Thin helpers around the public classes of /repo."""
from richard.core.Model import Model
from richard.core.System import System
from richard.core.Solver import Solver
from richard.core.BasicGenerator import BasicGenerator
from richard.core.constants import *
from richard.core.Logger import Logger
from richard.block.FindOne import FindOne
from richard.block.FindAll import FindAll
from richard.block.TryFirst import TryFirst
from richard.entity.Relation import Relation
from richard.entity.Variable import Variable
from richard.entity.ReifiedVariable import ReifiedVariable
from richard.entity.ResultIterator import ResultIterator
from richard.entity.SentenceRequest import SentenceRequest
from richard.entity.ProcessResult import ProcessResult
from richard.interface.SomeModule import SomeModule
from richard.interface.SomeProcessor import SomeProcessor
from richard.module.BasicOutputBuffer import BasicOutputBuffer
from richard.module.BasicDialogContext import BasicDialogContext
from richard.module.GrammarModule import GrammarModule
from richard.module.InferenceModule import InferenceModule
from richard.module.SimpleMemoryModule import SimpleMemoryModule
from richard.processor.parser.BasicParser import BasicParser
from richard.processor.parser.helper.SimpleGrammarRulesParser import SimpleGrammarRulesParser
from richard.processor.parser.helper.grammar_functions import apply
from richard.processor.semantic_composer.SemanticComposer import SemanticComposer
from richard.processor.semantic_composer.optimizer.BasicQueryOptimizer import BasicQueryOptimizer
from richard.processor.semantic_executor.AtomExecutor import AtomExecutor
from richard.type.ExecutionContext import ExecutionContext
from richard.type.SemanticTemplate import SemanticTemplate
from richard.grammar.en_us_write import get_en_us_write_grammar
from . import grammar as G


def V(name):
    return Variable(name)


def read_grammar(rules):
    return SimpleGrammarRulesParser().parse_read_grammar(rules)


def write_grammar(rules):
    return SimpleGrammarRulesParser().parse_write_grammar(rules)


def tagged_sem(i):
    def sem(*args):
        return [("rule", i)]
    sem.rule_id = i
    return sem


def simple_grammar(spec, boosts=None, **kw):
    """spec (see grammar.py) -> list of rule dicts; the meaning function of each rule identifies it"""
    out = []
    for i, r in enumerate(spec):
        d = {"syn": G.render(r, **kw), "sem": tagged_sem(i)}
        if boosts and boosts[i] is not None:
            d["boost"] = boosts[i]
        out.append(d)
    return out


def tree(node):
    """a parse tree as plain data, as the reference makes them"""
    if len(node.children) == 0:
        return (node.category, node.form)
    return (node.category, node.rule.sem.rule_id, tuple(tree(c) for c in node.children))


def parse(parser, text):
    r = parser.process(SentenceRequest(text))
    return [tree(p.parse_tree) for p in r.products], r.error_type, list(r.error_args)


def vals(bindings, names):
    return [tuple(b.get(n) for n in names) for b in bindings]
