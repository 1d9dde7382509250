#!/usr/bin/env python3
"""Regenerates properties.jsonl from the table below (kept here because it is easier to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

ASM = ["peak/assembler/assembler.py", "peak/assembler2/assembler.py"]
prop("A01", "Assembled instructions decode back to themselves",
 "For every instruction type built from bits, bit vectors, enums, tuples, products, sums and tagged unions, each of the two assemblers encodes every instruction in exactly the width it declares and decodes that opcode back to an equal instruction. Two different instructions of a type never share an opcode.",
 ["inputs", "programs"], "all instruction types (any nesting, enum numbering and field widths) and all their values",
 "Tests round-trip a few fixed types and a handful of values; encodings interact with nesting, enum numbering (gaps, auto values), unequal payload widths and repeated payload types.",
 ASM, [("per-kind encoders and decoders", "_enum/_tuple/_sum/_field in assembler.py (both packages)"), ("tag assignment of sums", "_sum")],
 observe=["Assembler.assemble", "Assembler.disassemble", "Assembler.width"])
prop("A02", "Opcode validity is exact",
 "An opcode is reported valid if and only if its tags and enum fields, wherever they occur on the selected alternative, all name declared members; decoding returns an instruction (which encodes back to the same opcode, up to bits the alternative does not use) for every valid opcode and raises an error for every other. Validity of tags is exact in the same way, symbolic and concrete validity agree, and none of this depends on which other types were assembled before.",
 ["inputs", "programs", "histories"], "all instruction types, all bit patterns of the opcode width, any order in which types were assembled earlier in the process",
 "The tests never feed most bit patterns and never assemble one type after another whose opcodes coincide; validators are chosen by the numeric pattern of the opcodes and cached globally.",
 ["peak/assembler/assembler_util.py", "peak/assembler2/assembler_util.py"] + ASM,
 [("validator synthesis by numeric pattern", "_gen_is_valid"), ("recursive validity", "is_valid in _tuple/_sum")],
 state=[("validator cache", "validators shared by all types with the same opcode set", "assembler_util._validator_cache")],
 observe=["Assembler.is_valid", "Assembler.disassemble", "Assembler.is_valid_tag"])
prop("A03", "Instruction encodings are reproducible",
 "The width, field positions and opcodes of an instruction type are a function of its declaration alone: they are the same in every process, whatever the hash seed, memory layout, order of declaration and types used earlier. Enum members declared with an integer are encoded as that integer, and a type rebuilt from the same declaration encodes identically.",
 ["configurations", "histories", "programs"], "all instruction types, hash seeds, process histories and declaration orders of sum alternatives",
 "The tests run once in one process under one hash seed and compare an encoding only with itself.",
 ASM + ["peak/assembler/assembler_util.py", "peak/assembler/assembler_abc.py"],
 [("sorted tag assignment", "_sum"), ("enum value assignment", "_enum"), ("per-type instance cache", "AssemblerMeta.__call__")],
 state=[("assembler cache", "one assembler per type", "assembler_abc.AssemblerMeta._cache")],
 observe=["Assembler.assemble", "Assembler.layout"])
prop("A04", "Published field positions locate every field",
 "The position an assembler publishes for a field, a nested field path or a tag selects exactly the bits that encode that field in every opcode of the type. Positions of different fields of one product or tuple never overlap, a payload never overlaps its tag, and all lie within the declared width; extracting a field and matching a tag through the newer assembler agree with the instruction's own fields.",
 ["inputs", "programs"], "all instruction types, all field paths in them, all values",
 "Tests read the positions of a few fields of fixed types; nested offsets, mixed widths and unions with repeated payload types are where errors hide.",
 ["peak/assembler/assembler_abc.py"] + ASM, [("nested offsets", "Sub._get, Sub.idx, Sub.tag_idx"), ("layout", "layout in _tuple/_sum"), ("extract and match", "assembler2 _tuple/_sum")],
 observe=["Assembler.sub", "Assembler.layout", "assembler2 Assembler.extract", "assembler2 Assembler.match"])
prop("A05", "Assembled values behave like the plain values they encode",
 "An assembled value built from a plain value, from its fields (in any accepted calling style) or from its opcode is the same value, and reading fields, matching alternatives and comparing for equality or inequality gives what the plain value gives. This holds for concrete and symbolic bit vectors and for both assemblers, and values of a wrong type or arity are rejected.",
 ["inputs", "programs"], "all instruction types and values, all ways to build and to read them, concrete and symbolic bit vectors",
 "Tests check a few enumerated values of fixed types and one calling style.",
 ["peak/assembler/assembled_adt.py", "peak/assembler2/assembled_adt.py", "peak/assembler2/assembler.py"],
 [("building from fields", "from_fields, _create_from_layout"), ("field access", "AssembledADT._get"), ("equality", "AssembledADT.__eq__, __ne__")],
 observe=["AssembledADT constructor", "AssembledADT.from_fields", "AssembledADT field access"])
prop("F01", "Every software family computes the same outputs",
 "A design specialised to the plain Python family, the rewriting Python family and the symbolic family produces the same outputs for the same inputs on every call, including state carried from call to call. In particular rewriting conditionals and early returns for the latter two never changes the meaning of a design.",
 ["programs", "inputs", "histories"], "all designs expressible in the language (conditionals, nested conditionals, early returns, instruction decoding, sub-components, registers), all inputs and call sequences",
 "Tests run a few designs on a few inputs and compare at most two families.",
 ["peak/family.py"], [("family specialisation and rewriting", "_StdMix, _RewriterFamily.assemble, SMTFamily.assemble"), ("assembled types per family", "_AsmFamily.get_adt_t, get_constructor")],
 observe=["outputs of designs called under each family"])
prop("F02", "Generated hardware behaves like the Python model",
 "The circuit generated for a design, simulated cycle by cycle from reset, produces the same outputs as calling the Python specialisation of the same design once per cycle with the same inputs (instruction inputs being the assembled opcodes). This includes the contents and enables of registers and the port widths and names of the declared inputs.",
 ["programs", "inputs", "histories"], "all designs expressible in the language that the hardware backend accepts, all input sequences",
 "The tests simulate a handful of circuits on a few vectors.",
 ["peak/family.py", "peak/assembler/assembled_adt.py"], [("hardware specialisation", "MagmaFamily.assemble, magmafy"), ("hardware registers", "MagmaFamily.gen_register, gen_attr_register"), ("hardware instruction types", "MagmaADT")],
 observe=["simulated circuit outputs per cycle"])
prop("F03", "Registers and memories follow their history",
 "A register returns the value stored by the most recent enabled write, or its initial value before any; reading without calling it does not disturb it, and a memory cell or attribute-style register behaves likewise, with a type-checked write. Separate instances never share state, whatever mix of types, initial values and enables was generated before.",
 ["histories", "inputs", "configurations"], "all types, initial values and sequences of calls, writes and reads over any set of instances and families",
 "Tests exercise one register type with a few writes; sharing through generator caches and enable handling need histories over several instances.",
 ["peak/family.py", "peak/register.py", "peak/memory.py", "peak/peak.py"],
 [("register generation and cache", "_RegFamily.gen_register, gen_attr_register"), ("descriptor-like access", "Peak.__getattribute__, __setattr__"), ("memories", "ROM, RAM")],
 state=[("register caches", "generated register classes", "family._REG_CACHE, _ATTR_REG_CACHE")],
 observe=["register and memory call results"])
prop("F04", "Declared interfaces are reported faithfully",
 "A design reports exactly its declared inputs and outputs, with their names, order and types (including modifiers), in every software family; inputs lacking a type and a missing return type are rejected when the class is created. When result checking is requested in the plain Python family, a call that returns a value of an undeclared type or a wrong number of results raises an error, and any well-typed call returns its results unchanged.",
 ["programs", "inputs"], "all signatures (arity, names, types, single, tuple and named outputs, no outputs), all returned values",
 "Tests look at a few signatures and at one ill-typed result.",
 ["peak/features.py", "peak/peak.py"], [("interface derivation", "gen_input_t, gen_output_t, name_outputs"), ("result checking", "typecheck"), ("class creation", "PeakMeta.__new__")],
 observe=["input_t", "output_t", "call results"])
prop("F05", "Family closures specialise once per family and never leak",
 "Asking a family-generic definition for the same family and options again returns the very same specialisation, and asking for a different family or different options never returns one made for another. Families compare equal exactly when they are the same kind with the same configuration, consistently with hashing.",
 ["histories", "configurations"], "all sequences of requests over families, family configurations and options",
 "Tests request one family at a time in a fixed order.",
 ["peak/features.py", "peak/family.py"], [("closure cache", "family_closure.__call__"), ("family equality and hashing", "AbstractFamily, _AsmFamily __eq__/__hash__")],
 state=[("closure cache", "specialisations by arguments", "family_closure.cache")],
 observe=["identity of returned classes", "family == and hash"])
prop("F06", "Instruction-set entries compute the given function",
 "A design generated from a name, an input interface, an output interface and a function has exactly those interfaces and computes exactly that function, in every software family. Adding an entry under a name already present is rejected and leaves the existing entries unchanged.",
 ["programs", "inputs", "histories"], "all interfaces and functions, all inputs, all sequences of additions",
 "Tests add a few fixed instructions.",
 ["peak/ir.py"], [("design generation from source text", "IR.add_peak_instruction"), ("registration", "IR.add_instruction")],
 observe=["IR.instructions", "outputs of generated designs"])
prop("B01", "Black boxes are found exactly where they are",
 "Enumerating the black boxes of a design object returns every black box among its components at any depth, each under the path of attribute names that leads to it, and nothing else (a black box is opaque: what it is made of is not part of the hierarchy). Looking one up by its path gives that very object, and a path that leads to no component is rejected.",
 ["programs", "inputs"], "all hierarchies (depth, siblings, shared components, black boxes next to ordinary components)",
 "Tests use one hierarchy of depth two.",
 ["peak/black_box.py"], [("hierarchy walk", "get_black_boxes"), ("lookup", "get_black_box")],
 observe=["get_black_boxes", "get_black_box"])
prop("B02", "Black-box calls record inputs and deliver outputs",
 "Calling a black box in the symbolic family yields exactly the outputs set for it, and afterwards reports exactly the inputs of the latest call in declared order, whether passed by position or by name. Calls with missing, extra or mixed arguments, calls before outputs are set, reads before a call and wrongly sized outputs are rejected; one box never sees another's values.",
 ["inputs", "histories", "programs"], "all signatures, calling styles and sequences of set, call and read over several boxes",
 "Tests make one positional call per box.",
 ["peak/black_box.py", "peak/family.py"], [("call replacement", "BlackBox.create_call"), ("values", "BlackBox._get_inputs, _set_outputs")],
 observe=["results of calls", "_get_inputs"])
prop("M01", "Rewrite rules found by the mapper are correct",
 "Whenever the mapper returns a rewrite rule, running the architecture with the rule's constants and with the instruction's inputs routed as the rule says gives, on every output the rule connects, the value the instruction computes, for every instruction input and every value of the architecture inputs left free. Every instruction input and output is routed, to a place of the same type, exactly once, and every constant is a valid value of its field.",
 ["programs", "inputs", "configurations"], "all architecture/instruction pairs within the mapper's input language, all inputs, both formula styles, both index encodings, internal and external solving",
 "Tests check that some rules are found and, at best, ask the same solver-based code to confirm them; nothing executes the rule independently over all inputs.",
 ["peak/mapper/mapper.py", "peak/mapper/utils.py"], [("formula construction", "IRMapper.__init__"), ("rule extraction", "rr_from_solver"), ("exists-forall loop", "external_loop_solve"), ("candidate bindings", "create_bindings")],
 observe=["IRMapper.solve", "RewriteRule.ibinding, obinding"])
prop("M02", "The mapper misses no rule",
 "If some routing of the instruction's inputs and outputs to equally typed architecture inputs and outputs, with some valid constants, makes the architecture compute the instruction for all inputs, the mapper returns a rule; it reports that there is none only if there is none. This does not depend on the formula style, index encoding or solving mode (apart from an explicit iteration limit being reported as such).",
 ["programs", "configurations"], "all architecture/instruction pairs within the mapper's input language",
 "Tests assert that rules exist for a few pairs; a lost binding or an over-strong condition silently reports that no rule exists.",
 ["peak/mapper/mapper.py", "peak/mapper/utils.py", "peak/mapper/index_var.py"], [("formula construction", "IRMapper.__init__"), ("input forms", "SMTForms"), ("candidate bindings", "create_bindings"), ("index variables", "IndexVar")],
 observe=["IRMapper.solve"])
prop("M03", "Rule verification is exact and its counterexamples are real",
 "Verifying a rewrite rule reports no counterexample if and only if architecture and instruction agree on all connected outputs for all inputs. Any counterexample reported covers all free inputs and, when executed, makes them disagree.",
 ["programs", "inputs"], "all rules (correct and incorrect, hand-written or found), all inputs",
 "Tests verify a few rules known to be right; a verifier that always answers 'verified' would pass most of them.",
 ["peak/mapper/mapper.py"], [("verification", "RewriteRule.verify"), ("input construction", "RewriteRule.build_inputs")],
 observe=["RewriteRule.verify"])
prop("M04", "Path constraints restrict rules to the allowed values",
 "With path constraints, every rule returned binds each constrained constant field to one of the allowed values, never routes an instruction input to a constrained path, and stays correct whichever allowed value a constrained non-constant input takes. A rule that satisfies the constraints is found whenever one exists, and constraints on unknown paths are rejected.",
 ["programs", "configurations", "inputs"], "all architecture/instruction pairs, all sets of constraints (one or several values, constant and non-constant paths)",
 "Tests use two fixed constraints and do not execute the rules.",
 ["peak/mapper/mapper.py"], [("constraint handling", "ArchMapper.__init__, IRMapper.__init__"), ("rule extraction", "rr_from_solver")],
 observe=["IRMapper.solve with path_constraints"])
prop("M05", "Rules and verdicts about black boxes hold for every interpretation",
 "When designs contain black boxes, a rule that is returned or verified is correct for every function the black boxes might compute, provided boxes of the same kind compute the same function. A rule that depends on what a box computes, or that feeds boxes differently, is refused.",
 ["programs", "inputs"], "all architecture/instruction pairs with black boxes, all interpretations of the boxes, all inputs",
 "Tests map a few floating-point designs and never interpret the boxes differently.",
 ["peak/mapper/mapper.py", "peak/black_box.py"], [("congruence condition", "update_with_bb"), ("box outputs", "create_and_set_bb_outputs, get_bb_inputs")],
 observe=["IRMapper.solve", "RewriteRule.verify"])
prop("M06", "Rewrite rules survive serialisation",
 "Serialising the bindings of a rewrite rule, storing them as JSON text and reading them back gives a rule with the same routing, the same constants with the same types, and the same unconnected entries. The reread rule has the same verification verdict.",
 ["inputs", "programs"], "all rules whose paths are made of names and numbers, all constant kinds",
 "Tests serialise a couple of rules.",
 ["peak/mapper/mapper.py"], [("writing", "RewriteRule.serialize_bindings"), ("reading", "read_serialized_bindings")],
 observe=["serialize_bindings", "read_serialized_bindings"])
prop("M07", "Rules reject bad constants and route inputs as stated",
 "Creating a rule with a constant that is not a valid value of its field, or leaving a constant field without value, is rejected. Building the inputs of a rule gives the instruction exactly the supplied values and gives each architecture field the routed instruction value, the supplied free value or the rule's constant, and supplying the wrong set of inputs is rejected.",
 ["programs", "inputs"], "all rules over all input types (products, tuples, sums, tagged unions, enums), all values",
 "Tests build rules from known-good bindings.",
 ["peak/mapper/mapper.py", "peak/mapper/utils.py"], [("constant checking", "RewriteRule.__init__"), ("input assembly", "RewriteRule.build_inputs, SimplifyBinding")],
 observe=["RewriteRule(...)", "RewriteRule.build_inputs"])
prop("M08", "Candidate routings and choice encodings are complete and unambiguous",
 "The candidate routings between two typed sets of paths are exactly those that use every instruction path once, on a path of the same type, and leave the rest unconnected, each listed once. A choice variable over n alternatives has, in either encoding, exactly n distinguishable codes that decode to the alternatives in order, and its validity condition accepts exactly those codes.",
 ["inputs", "configurations"], "all typed path sets, all n, all codes",
 "Tests look at a few path sets and never enumerate the codes.",
 ["peak/mapper/utils.py", "peak/mapper/index_var.py"], [("routing enumeration", "create_bindings"), ("choice variables", "OneHot, Binary")],
 observe=["create_bindings", "IndexVar.match_index, decode, is_valid"])
prop("M09", "Multi-instruction mappings implement the instruction",
 "When the multi-instruction mapper reports a sequence of architecture instructions with its routing, executing the sequence on the architecture computes the target instruction for every input and every value of the inputs left free. It reports failure only if no sequence of that length exists that routes every instruction input once and takes the outputs from its last instruction.",
 ["programs", "inputs", "configurations"], "all architecture/instruction pairs and lengths within its input language, both encodings and formula styles",
 "The one test only checks that a result is reported.",
 ["peak/mapper/multi.py"], [("formula construction", "Multi"), ("report", "RR")],
 observe=["the printed solution"])
prop("M10", "Symbolic input forms cover a type exactly",
 "Decomposing a type into symbolic forms yields one form per way of choosing an alternative in every sum, each form carrying the values of exactly the leaves it can reach, and its match conditions hold precisely for the values that make those choices. Given a value, the leaves, tags and matches read from it are those of the value.",
 ["programs", "inputs"], "all instruction types, all values",
 "Tests count forms of a few types.",
 ["peak/mapper/utils.py"], [("form construction", "SMTForms")],
 observe=["SMTForms()(type)", "SMTForms()(type, value=...)"])
prop("L01", "Bit-field encodings are faithful",
 "Encoding an instruction as a word places every field at the position given by the widths of the fields before it (from either end), puts union tags (default or user-given) beside their payload, applies declared offsets, and fits in the reported size. Different instructions encode differently, and an instruction encodes to the same word in every run.",
 ["inputs", "programs"], "all instruction types of that style, both directions, user tags and offsets, all values",
 "Tests encode a few instructions of three fixed instruction sets.",
 ["peak/bitfield.py"], [("encoding", "encode"), ("sizes and tags", "size, sumsize, instkey, tag, bitfield")],
 observe=["encode", "size"])
prop("L02", "The legacy assembler round-trips",
 "For every type made of enums, products, sums, bits and bit vectors, the legacy assembler generator's encoder and decoder are inverse on all values, different values get different codes, the code fits the reported width, and the reported layout locates each field.",
 ["inputs", "programs"], "all instruction types of enums, products, sums, bits and vectors, all values",
 "Nothing in the test suite runs it.",
 ["peak/auto_assembler.py"], [("generation", "generate_assembler")],
 observe=["generate_assembler"])
prop("L03", "Floating-point operations follow the selected rounding mode",
 "Each operation of a generated floating-point library returns, for every rounding mode and all operands, what the underlying number library computes in that mode; the constant-rounding-mode variant of an operation agrees with the general one given that mode. Conversions between rounding-mode representations are mutually inverse.",
 ["inputs", "configurations"], "all formats, operations, rounding modes and operands",
 "Tests use one mode on a few operands.",
 ["peak/float.py"], [("operation generation", "float_lib_gen"), ("constant mode", "const_rm"), ("mode conversion", "RoudningMode_utils")],
 observe=["outputs of generated operations"])
prop("L04", "Circuits wrapped with a disassembler behave as before",
 "A circuit wrapped with a disassembler, fed with the legacy assembler's code of an instruction, behaves as the circuit fed with the fields of that instruction, at every depth of nested products. All other ports keep their name, direction and width and pass through unchanged, also when several circuits or wrappers are made.",
 ["inputs", "programs"], "all instruction products (nested, with enums, bits, vectors, sums), circuits and input sequences",
 "The only test builds one wrapper and never simulates it.",
 ["peak/rtl_utils.py", "peak/auto_assembler.py"], [("wrapping", "wrap_with_disassembler"), ("layout", "generate_assembler")],
 observe=["ports and outputs of the wrapped circuit"])
with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, (p['id'], p['statement'].count('. '))
        f.write(json.dumps(p) + '\n')
print(len(P))
