#!/usr/bin/env python3
"""writes MANIFEST.json from the list of properties that have a check"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AST = 'queries over the resolved program (libTooling extraction): '
AI = 'abstract interpretation (type tag and payload typestate, value numbering, linear inequalities, inductive loop states): '
CHECKS = {
 'C01': (AI + 'typestate of the untagged union', 'Every public operation x 21 stored types x argument aliasing; functions the engine cannot follow are listed in the evidence as not decided.'),
 'C02': (AI + 'ownership of payloads', 'As C01; leaks on allocation failure are outside the property.'),
 'C03': (AI + 'state of all containers at every exceptional exit, allocation failures included', 'As C01, with a failing successor for every allocation.'),
 'C04': (AI + 'terms returned by every typed read compared with its promise', 'Every typed read x 21 stored types; a violation carries a stored value that shows it. Mixed VECTOR sources of the copying reads are checked for size only.'),
 'C05': (AI + 'terms found in the destination compared with those of the source at the entry', 'Every copying operation x 21 source types x 21 destination types, source inside the destination included; nested containers by induction; entries of maps for 1 and 2 entries with arbitrary keys.'),
 'C06': (AI + 'terms stored at every exit of a promotion compared with those of the entry', 'All 13 promotions x 21 stored types, at a generic position; a violation carries a stored value that shows it.'),
 'C07': (AI + 'announcer, writer and reader composed: the reader is analysed on the bytes the writer leaves, as bytes of stored values', 'All 21 stored types; announced and written sizes for any number of elements, contents read back for every small number of elements; nested containers by induction; buffers exactly as long as announced or longer.'),
 'C08': (AI + 'bounds of the byte buffers, nested calls by contract', 'Every path of the byte writers and readers for every capacity and content; no bound on sizes below 2 GiB.'),
 'C09': (AI + 'bounds of every element access', 'Every element access reached from every public operation x 21 stored types; violations carry a witness.'),
 'C10': (AI + 'comparison of every container, map and argument at the exit with its entry state', 'Every const operation x 21 stored types; two known findings are listed.'),
 'C11': (AST + 'effect analysis of static storage over the call graph', 'Every use of an object with static storage reachable from the C++ interface is classified as read or write. Trusts the header-only parsers and Lua.'),
 'C12': ('path-sensitive finite-state analysis of every extern "C" function, exception-escape analysis over the call graph', 'All paths of all functions of the C interface; standard-library throw behaviour from declarations and a table.'),
 'C13': ('typestate analysis of the selected handle and the registry over every path of every extern "C" function', 'All paths of all functions of the C interface, helpers analysed in the state of the caller.'),
 'C16': ('provenance (dataflow) analysis of text parameters', 'Every use of a text parameter or of a value derived from it in every function of the library.'),
 'C17': (AI + 'conditions on the stored number along every returning path against the range of the result', 'Every integer-valued read x numeric stored types, all stored numbers; a violation carries a stored value.'),
 'C18': ('path-sensitive finite-state analysis of failure reporting in the importers', 'All paths of all functions of the importers; syntax errors are those the bundled parsers report.'),
 'C15': (AI + 'the Lua stack (depth, reserved room, types of its values) as part of the state, with the calls of the Lua API as transfer functions', 'Every operation of the bridge on every stored type and every result of the API calls; conversions that call themselves by induction on the depth; LuaInterpreter::interactive (the copied stand-alone interpreter) is not analysed.'),
 'C19': (AI + 'the text (or tree of nodes) an exporter leaves, as a sequence of literal pieces and stored values, parsed with the grammar of the format and compared with the stored elements', 'All exporters on all 21 stored types: sequences of generic size, and of every small size followed element by element; nested elements by induction on the depth; the texts of TOML itself are those of the bundled library.'),
 'C20': (AI + 'conditions collected along every path of the comparison against equality of the contents', 'All 441 pairs of stored types, generic sizes and sequences of known small, equal or unequal, sizes; nested containers by induction.'),
 'C21': (AI + 'ranking of every loop and of every recursive call, over every path', 'Every loop and recursive cycle reachable from the public interface; loops of the standard library and the bundled parsers are trusted.'),
 'C22': ('comparison of the Ruby FFI declarations with the C declarations resolved by clang', 'Every attached function, every type name dispatched on, every error code.'),
 'C23': (AI + 'terms returned by the reporting functions compared with those of the stored type', 'All reporting functions x 21 stored types, all sizes.'),
 'C24': (AI + 'effects on the format state of every output stream, at every exit', 'Every exporter and printer x 21 stored types.'),
 'C25': (AI + 'bounds of every element access in the table printers', 'Every path of the table printers for arbitrary headers, columns and sizes.'),
 'C26': (AI + 'state of the map, the entry and the result at every exit compared with those of the entry state', 'Every operation taking a key, up to two alternative keys or a path of up to three keys x 21 stored types x entry missing or holding each of the 21 types.'),
 'C27': (AI + 'value at the selected position and result at every exit compared with the arguments and the entry state', 'Every setter, push, reader and move of the C interface x 21 stored types at the selected position, all arguments.'),
}
NA = {
 'C30': 'round-trip equality of formatted numbers quantifies over runtime values and the formatting of the standard library; no static argument in reach bounds it',
 'C31': 'round-trip through text depends on the bundled parsers and on runtime values; only its clauses C18, C19 and C24 are decided statically',
}
def main():
    props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
    m = {'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': [], 'not_applicable': []}
    for p in props:
        if p in CHECKS:
            t, n = CHECKS[p]
            m['checks'].append({'property': p, 'quick_cmd': 'python3 engine/run.py ' + p, 'thorough_cmd': 'python3 engine/run.py ' + p,
                                'technique': 'static analysis: ' + t, 'level': 'other', 'level_note': n})
        else:
            m['not_applicable'].append({'property': p, 'reason': NA.get(p, 'no check yet: the value analysis that decides it is being built')})
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
main()
