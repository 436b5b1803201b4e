"""Writes properties.jsonl (the list is easier to edit here)."""
import json, os
E='src/acetimetools/extractor/extractor.py'
T='src/acetimetools/transformer/transformer.py'
M='src/acetimetools/tzcompiler.py'
G='src/acetimetools/generator/'
def m(*p): return [{'name':a,'where':b} for a,b in p]
P=[]
def add(id,title,statement,over,text,why,files,mech,state=None,obs=None,hook=None):
    a={'files':files,'mechanism':mech}
    if state: a['state']=m(*state) and [{'name':x,'meaning':y,'where':z} for x,y,z in state]
    a['observe_at']=obs or ['exit status','bytes of the output directory']
    a['hook_needed']=hook
    P.append({'id':id,'title':title,'statement':statement,
      'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})

add('C01','Success is never reported after a failed or lost operation',
 "When a file operation fails, the disk fills up, memory runs out, or the run is interrupted at any instant, the compiler exits with status 0 only if every requested output file exists, is complete and is byte-identical to the one an undisturbed run writes. Transfers that the system merely splits into smaller pieces change neither the status nor a byte. Every run ends, whatever fault it meets.",
 ['fault_sequences','schedules','crash_points'],
 'every operation index of a run x every error kind, every partial-transfer schedule, every executed line for interrupts and allocation failure, every disk size',
 'The tests call pure helpers only; none opens a file, so no failing read, write, close or allocation is ever executed.',
 [M,E,G+'argenerator.py',G+'cgenerator.py',G+'gogenerator.py',G+'pygenerator.py',G+'jsongenerator.py',G+'zonelistgenerator.py','src/acetimetools/transformer/commenter.py'],
 m(('errors while reading, writing or closing propagate out of main()',M+': main'),('per-line handler that must not swallow resource failures',E+': _process_rules/_process_zones'),('with-statement closes every output file',G+'*: _write_file')))

add('C02','Output depends only on the inputs and the flags',
 "Two runs over the same input bytes and the same flags write byte-identical files. Nothing else of the environment shows in them: hash randomisation, date, time zone, locale, environment variables, working directory, absolute location of the directories, process id, directory listing order, file timestamps, garbage-collection moments, or what the process did before.",
 ['schedules','configurations','inputs'],
 'every hash seed, clock, time zone, locale, environment, location and directory order, for generated input trees and every flag combination',
 'No test generates a file, and one process sees one hash seed, clock and locale.',
 [M,T,G+'argenerator.py',G+'gogenerator.py',G+'jsongenerator.py','src/acetimetools/transformer/artransformer.py','src/acetimetools/transformer/gotransformer.py','src/acetimetools/datatypes/attyping.py'],
 m(('every set and dict is sorted before it is written',G+'*, transformer/*: sorted(...)'),('comment sets are sorted','src/acetimetools/datatypes/attyping.py: create_zone_info_database'),('explicit utf-8 on every open',G+'*: _write_file')))

add('C03','A rerun repairs whatever an earlier run left behind',
 "After any sequence of runs that crashed, were interrupted or failed, and whatever stale, partial, longer or corrupted files are present under the output names, one undisturbed run exits 0 and leaves exactly the files that a run into an empty directory writes. Files under other names in the output directory are left exactly as they were.",
 ['histories','crash_points','fault_sequences'],
 'every history of crashed or failed runs with differing flags and inputs, followed by one clean run, over arbitrary pre-existing contents',
 'No test runs the compiler twice over one directory, or leaves a partial file behind.',
 [M,G+'argenerator.py',G+'cgenerator.py',G+'gogenerator.py',G+'pygenerator.py',G+'jsongenerator.py',G+'zonelistgenerator.py'],
 m(('each output is opened for truncating write and rewritten in full',G+'*: _write_file'),('no state is kept between runs',M+': main')))

add('C04','Inputs are never changed and only requested outputs are touched',
 "A run never creates, changes, renames, deletes or re-permissions anything except the output files that its actions and languages call for, inside the output directory it was given. This holds on success, on rejected input, and under any failing operation or crash; the input directory and the include list are only ever read.",
 ['fault_sequences','crash_points','configurations'],
 'every flag combination x every operation index at which a fault or crash can be placed',
 'Tests never observe the file system.',
 [M,E,G+'argenerator.py',G+'cgenerator.py',G+'gogenerator.py',G+'pygenerator.py',G+'jsongenerator.py',G+'zonelistgenerator.py'],
 m(('inputs opened read-only',E+': _parse_zone_files; '+M+': read_include_list'),('fixed list of output names joined to --output_dir',G+'*: generate_files')))

add('C05','A failed or killed run leaves every output old or complete',
 "A run that fails while reading, validating or transforming its input leaves every earlier output file byte-identical. If a run is killed or fails at any later point, every output file holds either exactly its earlier content or exactly the complete content this run has for it, except at most one file, the one being written, which holds a leading part of its new content.",
 ['crash_points','fault_sequences'],
 'every operation index, every byte position inside a write and every executed source line of a run over an existing set of outputs',
 'No test stops a run part-way or looks at what is left on disk.',
 [M,G+'argenerator.py',G+'cgenerator.py',G+'gogenerator.py',G+'pygenerator.py',G+'jsongenerator.py',G+'zonelistgenerator.py'],
 m(('all reading and transforming precedes the first open for writing',M+': main'),('one file open for writing at a time, content generated before the open',G+'*: _write_file')))

add('C06','Compilations in one process do not influence each other',
 "Any number of compilations carried out in one process, with different inputs, flags and output directories, one after another or interleaved at any point, each end with the same status and write the same bytes as when run alone in a fresh process. This also holds after earlier compilations in the process were rejected, interrupted or ran out of memory.",
 ['schedules','histories','fault_sequences'],
 'every interleaving of two or three compilations at file operations and source lines, and every history of earlier successes and failures in the process',
 'The tests build one helper object at a time and never run two compilations, so shared mutable state cannot show.',
 [M,E,T,'src/acetimetools/datatypes/attyping.py','src/acetimetools/transformer/artransformer.py','src/acetimetools/transformer/gotransformer.py','src/acetimetools/generator/byteutils.py','src/acetimetools/bufestimator/bufestimator.py'],
 m(('all state lives in objects created per run',M+': main'),('module-level tables are never written',E+': MONTH_TO_MONTH_INDEX; '+T)))

add('C07','What one target writes does not depend on the other targets',
 "The source files written for one language and the zone list are byte-identical (the quoted command line aside) whether that target is requested alone or together with any others, in whatever order and however often targets are named; the zones, links, rules, sizes and removals in the JSON file are likewise the same. Transforming or generating for one target never alters the data another target sees, also when a previous run in the process failed part-way.",
 ['configurations','histories','fault_sequences'],
 'every subset, order and repetition of targets, over generated inputs, scopes and windows, after clean and failed runs',
 'No test runs a generator, let alone several over one shared result.',
 [M,'src/acetimetools/transformer/artransformer.py','src/acetimetools/transformer/gotransformer.py',G+'argenerator.py',G+'cgenerator.py',G+'gogenerator.py',G+'pygenerator.py',G+'jsongenerator.py'],
 m(('per-language results are kept in separate fields of the shared result','src/acetimetools/datatypes/attyping.py: TransformerResult'),('stages run in a fixed order whatever the flags say',M+': main')))

add('C08','What is read does not depend on how the bytes are delivered',
 "The rules, eras and links obtained from the input files are the same for every way the system delivers the same lines: read sizes and short reads, LF or CRLF ends, a missing final newline, extra blank or comment lines, trailing comments, and any run of spaces and tabs between fields. Every rule, zone, continuation and link line is represented exactly once, in file order and with exactly the fields written on it, or is counted as ignored or invalid.",
 ['schedules','inputs','fault_sequences'],
 'every chunking of every generated input tree and every layout-preserving rewriting of it',
 'The tests parse three hand-written time strings and never a stream.',
 [E],
 m(('line reader strips comments and blanks',E+': _read_line'),('field split on whitespace runs',E+': _process_rule_line/_process_zone_line'),('per-kind counters of ignored and invalid lines',E+': print_summary')),
 obs=['data returned by the extractor','summary counters in the log'])

add('C09','Damage in the input reaches only the zones that depend on it',
 "When lines of the input files are garbled, torn, lost or duplicated, the run either fails with a nonzero status, or every zone whose own lines, whose neighbouring lines and whose rules were not touched is emitted exactly as from the undamaged input. A damaged rule, zone, continuation or link line that cannot be understood is reported in the log and counted; it is never silently taken for part of something else.",
 ['fault_sequences','inputs'],
 'every placement of bit flips, torn tails, lost, repeated and overwritten lines in generated and real input trees',
 'Tests feed only well-formed records straight to helper functions.',
 [E,T],
 m(('a line that fails to parse is dropped, logged and counted',E+': _process_rules/_process_zones'),('zones with broken fields are removed with a reason',T+': _remove_*')),
 obs=['decoded zone records of the outputs','log and exit status'])

add('C11','The driver script deletes nothing but the workspace it created',
 "The tzcompiler.sh script never deletes, moves or changes anything it did not create itself, whatever the paths look like (spaces, glob characters), whatever already exists, and whichever of its commands fails or is killed; the source repository in particular is only read. When it ends for any reason other than an uncatchable kill its temporary workspace is gone unless --nocleanup was given. Its exit status is 0 only if the checkout and the compiler both succeeded, where the compiler was given the zone files of the requested version and the caller's flags unchanged. An undisturbed run on a valid repository and version succeeds.",
 ['fault_sequences','crash_points','configurations','histories'],
 'every command of the script x failure, partial effect or signal; every combination of pre-existing files, awkward paths, flags and two overlapping runs in one directory',
 'No test runs the script.',
 ['tzcompiler.sh'],
 m(('refuses to overwrite an existing workspace','tzcompiler.sh: copy_tzfiles'),('EXIT trap removes the workspace','tzcompiler.sh: clean_tzfiles'),('set -eu','tzcompiler.sh')),
 obs=['file system before and after','exit status','commands issued'])

add('C12','The copy script only ever prunes the copy it just made',
 "The copytz.sh script removes files only inside the target directory it created in that run, whatever the paths look like and whichever of its commands fails, is interrupted or takes partial effect; the source and everything else stay untouched. It refuses an existing target, and exit status 0 means that the target holds exactly the zone files of the source at the requested version (hidden entries such as .git aside) plus version.txt naming the requested tag. An undisturbed run on a valid repository, version and new target succeeds.",
 ['fault_sequences','crash_points','configurations'],
 'every command of the script x failure, partial effect or signal; every combination of pre-existing targets, awkward paths, and flags',
 'No test runs the script.',
 ['copytz.sh'],
 m(('refuses an existing target','copytz.sh'),('set -eu before cd and rm','copytz.sh')),
 obs=['file system before and after','exit status','commands issued'])

add('C13','A successful run yields a sound database even from damaged input',
 "Whenever a run exits 0, however damaged its input files were, every emitted database is well formed: every reference resolves, every value fits the type it is stored in, identifiers are unique, sorted and equal to the hash of their name, declared counts match contents, and each zone's eras are in order with the last one open-ended. All emitted languages, the JSON file and the zone list describe the same zones, links, eras and rules. Every zone, link and rule set named in readable input lines is either emitted or listed as removed with a reason.",
 ['fault_sequences','inputs','configurations'],
 'every damage sequence applied to generated and real input trees x scopes, windows, strictness and languages',
 'Tests check byte packing of single numbers; none decodes a generated database, and none compiles damaged input.',
 [T,'src/acetimetools/transformer/artransformer.py','src/acetimetools/transformer/gotransformer.py',G+'argenerator.py',G+'cgenerator.py',G+'gogenerator.py',G+'pygenerator.py',G+'byteutils.py'],
 m(('removal passes drop records that cannot be represented',T+': _remove_*'),('verification passes',T+': _verify_*'),('range checks in byte writers',G+'byteutils.py')),
 obs=['decoded contents of every output file','exit status'])

add('C14','A failing or oversized size estimate never slips through',
 "Transition buffer sizes written to the database are exactly those the size-estimating peer reported for each zone over the whole requested range of years, up to the year from which the peer declares the zone unchanging, and their stated maximum is the largest of them. If the peer fails for any zone or year, or reports more than the device supports without the override being given, the run fails with a nonzero status and writes nothing. Every zone with eras is asked about, with the data that is emitted for it.",
 ['fault_sequences','configurations','inputs'],
 'every pattern of peer answers and failures over zones and years x windows, scopes, languages and the override flag',
 'The peer library is not exercised by the stable tests at all.',
 ['src/acetimetools/bufestimator/bufestimator.py','src/acetimetools/bufestimator/zone_info_inliner.py',M],
 m(('one query per zone and year','src/acetimetools/bufestimator/bufestimator.py: _calculate_buf_sizes'),('limit check','src/acetimetools/bufestimator/bufestimator.py: transform')),
 obs=['calls received by the peer','sizes in the outputs','exit status'])

add('C15','A device reads the same local time as the TZ source says',
 "For every emitted zone and every instant within the years stated as accurate, the offset, daylight shift and abbreviation obtained from the generated data equal those given by the TZ source under zic semantics, at the granularity in force. The years stated as accurate include those asked for. Values that cannot be represented at the granularity cause removal (strict) or a recorded note (lenient). A zone that the scope can represent is never removed, and does not make the run fail.",
 ['clock_readings','inputs','configurations','histories'],
 'every instant a device clock may show, jump to or run through x generated and real input trees x scopes, windows, granularities, strictness and languages',
 'Tests convert single fields; none evaluates a zone at any instant, before or after the transformations.',
 [T,E,'src/acetimetools/transformer/artransformer.py','src/acetimetools/transformer/gotransformer.py',G+'argenerator.py',G+'gogenerator.py',G+'pygenerator.py'],
 m(('eras and rules outside the years are dropped, prior and anchor rules kept',T+': _remove_rules_too_old_or_new, _create_rules_with_anchor_transition'),('fields are expanded and truncated to the granularity',T+': _create_zones_with_expanded_until_time, _create_rules_with_expanded_at_time'),('accurate years follow from what was dropped',T+': _calc_accurate_years')),
 obs=['decoded zone records of the outputs','accurate years, removals and notes in the JSON file'])

add('C10','Zone identifiers are stable across releases and languages',
 "A zone or link name has the same identifier in every release, scope, window and language, equal to the documented hash of the name and never 0. Two different names in one database never share an identifier or a symbol in the generated sources; a release that would make them collide is refused and nothing is written. An identifier stored or exchanged by devices with databases of different releases therefore always means the same name.",
 ['histories','configurations','inputs','fault_sequences'],
 'every history of releases, builds, upgrades, roll-backs and exchanges of identifiers between devices',
 'Tests hash a few names; none compiles two releases, or names that collide.',
 [T,'src/acetimetools/transformer/artransformer.py','src/acetimetools/transformer/gotransformer.py',G+'argenerator.py',G+'cgenerator.py',G+'gogenerator.py',G+'jsongenerator.py'],
 m(('identifier is a hash of the name',T+': hash_name, _generate_zone_ids, _generate_link_ids'),('collisions of identifiers and symbols are detected before anything is written',T+': _detect_links_to_links, _detect_hash_collisions, _detect_zones_and_links_with_similar_names')),
 obs=['identifiers and symbols in every output','exit status','names resolved from stored identifiers'])

add('C16','Unrelated source edits leave a zone untouched',
 "Adding, removing, renaming or editing rules, zones and links that a zone does not refer to, between two valid releases, leaves the data emitted for that zone, the notes about it and the reason for its removal unchanged apart from positions in shared tables. Reordering independent blocks within and between files changes no generated source at all.",
 ['histories','inputs','fault_sequences'],
 'every history of releases in which other zones, rules and links are edited, compiled one after the other into one directory, also after killed attempts',
 'Tests transform single records; none compiles two releases and compares.',
 [T,E,'src/acetimetools/transformer/artransformer.py','src/acetimetools/transformer/gotransformer.py','src/acetimetools/transformer/commenter.py'],
 m(('passes handle one zone or rule set at a time',T+': _remove_*, _create_*'),('results are sorted by name',G+'*, transformer/*: sorted(...)')),
 obs=['decoded zone records and notes of the outputs','bytes of the generated sources'])

add('C19','What a database says about itself is true',
 "Every generated file, JSON included, states the command line, TZ version, TZ files, scope, granularities, flags and years of the very run that wrote it. Original and generated years are the extremes of the input and of the emitted data; a database is stated as truncated at an end exactly if something was left out of an emitted zone or its rules at that end, or a one-byte year saturated. The stated numbers of records, buffer maximum, string tables, memory sizes, removed and noted items and the source lines quoted with records agree with the data written, in all files, whatever earlier or killed runs left in the directory.",
 ['histories','inputs','configurations','fault_sequences'],
 'every history of runs with different inputs and flags into one directory, with kills, failures and split transfers before them',
 'No test looks at a generated header, count, size or comment, nor at a second run over the files of a first.',
 [M,T,G+'argenerator.py',G+'cgenerator.py',G+'gogenerator.py',G+'pygenerator.py',G+'jsongenerator.py','src/acetimetools/datatypes/attyping.py','src/acetimetools/transformer/artransformer.py','src/acetimetools/transformer/gotransformer.py','src/acetimetools/transformer/commenter.py'],
 m(('years and truncation are recorded while rules and eras are dropped',T+': original_min_year..., lower_truncated, upper_truncated'),('everything about one run is gathered in one record',M+', src/acetimetools/datatypes/attyping.py: create_zone_info_database'),('headers and comments are filled from it',G+'*: _generate_*')),
 obs=['headers, comments and statistics of every output','decoded data of the outputs','the arguments of the run'])

add('C20','Notes and removal reasons are true and complete',
 "Every reason given for removing a zone, link or rule set, and every note on one, is true: a source record of that name holds the quoted value and it has the stated fault or peculiarity, given the scope, years, granularities, strictness and include list of the run. Nothing is emitted that has a fault the scope refuses. The extended and complete scopes leave out no zone or link that was asked for; they refuse the source. Every emitted value that was cut to the granularity, is an odd multiple, a negative or unusual daylight shift, a long letter, a fixed format or a shifted month has its note.",
 ['inputs','configurations','fault_sequences'],
 'every source, including odd, borderline, impossible and damaged fields, x scopes, years, granularities, strictness and include lists',
 'No test runs the passes that remove and note; helpers are tested on a few strings.',
 [T,E],
 m(('each pass records a reason or note as it meets a field',T+': add_comment, _create_zones_with_*, _create_rules_with_*, _remove_*')),
 obs=['removed and notable zones, links and policies of the outputs','emitted records'])
add('C21','A source that does not fit the generated records is refused',
 "A database whose counts and indexes fit the fields of every requested language is accepted, and every record, index and offset decodes to the same database as from the languages without limits. One that does not fit (more than 255 rules in a rule set, eras in a zone or letters for C and C++; more than 255 bytes of letters, 65535 bytes of formats or names, 255 rule sets or 65535 rules for Go; more name fragments than control characters) ends with a nonzero status. It is refused before any file of an earlier release is touched.",
 ['inputs','configurations','fault_sequences'],
 'every source around each limit x scopes, languages and flags, over an earlier release and after killed attempts',
 'No test builds a database near a limit; none compares a generated index with its record.',
 ['src/acetimetools/transformer/artransformer.py','src/acetimetools/transformer/gotransformer.py',
  'src/acetimetools/generator/argenerator.py','src/acetimetools/generator/cgenerator.py',
  'src/acetimetools/generator/gogenerator.py','src/acetimetools/generator/byteutils.py'],
 m(('limits are checked before any generator opens a file','src/acetimetools/transformer/gotransformer.py: transform; artransformer.py: _generate_fragments'),
   ('the byte writers refuse what does not fit','src/acetimetools/generator/byteutils.py')),
 obs=['exit status','bytes of the output directory'])
add('C22','An include list selects zones and links and does nothing else',
 "Unless names of the source clash, a run with an include list ends like a run over a source that holds only the listed zones and links, and writes the same records, tables, notes, reasons, sizes and identifiers. Each listed zone and link is emitted as in the database of the whole source. Every other zone and link is left out with that reason. How the list is written (order, repetition, margins, comments, line ends, unknown or misspelled names) does not matter; a list without names selects everything, one that names nothing there is selects nothing, and a list that cannot be read is never taken for either.",
 ['inputs','configurations','fault_sequences'],
 'every source x list (with or without the targets of its links) x form of the list file x scopes, languages, faults',
 'No test runs the filter; it is a relation between three whole runs.',
 ['src/acetimetools/tzcompiler.py',T],
 m(('names are filtered before anything is derived from them',T+': _filter_include_zones, _filter_include_links'),
   ('one name per line, blank and comment lines ignored','src/acetimetools/tzcompiler.py: read_include_list')),
 obs=['exit status','bytes of the output directory'])
add('C23','A request is served as it stands or refused before a file changes',
 "A command line that asks for something impossible (unknown or empty actions, languages, scope or flags; missing flags or values; years and granularities that are no numbers or out of range; missing source files or include list; a language without the name space or the buffer sizes it needs; a name space or version that cannot be written into its sources) ends with a nonzero status before any file is created or changed. Any other one is served: order and spelling of flags, repeated languages and actions, spelled-out defaults, versions like HEAD, flags that no chosen language needs, and directories of any name change nothing in what is written but the quoted command line and version.",
 ['inputs','configurations','fault_sequences'],
 'every combination of changes to a command line x sources, scopes, languages, earlier contents of the directory, failing operations',
 'No test runs main(); requests, sources and earlier outputs combine without bound.',
 ['src/acetimetools/tzcompiler.py','src/acetimetools/datatypes/attyping.py'],
 m(('flags are validated before the source is read','src/acetimetools/tzcompiler.py: main'),
   ('the command line is escaped before it is quoted','src/acetimetools/tzcompiler.py: main')),
 obs=['exit status','bytes of the output directory'])
add('C24','Every run ends, after work in proportion to its input',
 "Every run ends, whatever its input files hold (fields, lines, names and numbers of any length, links in circles or long chains, thousands of repeated, blank, continuation or unreadable lines, missing line ends, any window of years) and whatever transfers, failures and kills it meets. A source four times as large takes about four times the work, however little each transfer moves. Once faults stop, the next run ends with the status and about the work of a run that never saw one, whatever they left behind.",
 ['inputs','configurations','fault_sequences'],
 'every source x flags x transfer sizes x failing operations and kills',
 'Liveness: no test bounds the work of a run, or meets more than one source or any fault.',
 ['src/acetimetools/extractor/extractor.py',T,'src/acetimetools/tzcompiler.py'],
 m(('one pass over the lines of each file','src/acetimetools/extractor/extractor.py: parse, _read_line'),
   ('one pass over the records per step',T+': transform')),
 obs=['exit status','executed source lines','file operations'])
add('C25','The log decides nothing and tells what happened',
 "What a run writes and whether it succeeds does not depend on its log: with standard output and error closed, broken, on a full disk or unable to encode a name, the files and the outcome are those of a run whose log is kept. A run that does not succeed says why. What the log states is true: the settings are those requested, the numbers of zones, rule sets and links emitted, removed and noted are those of the database, every removal is announced exactly once, and every announced removal or note is in the database with that reason.",
 ['inputs','configurations','fault_sequences'],
 'every source x request x fault of the standard streams at any write',
 'No test reads the log of a run or lets a write to it fail.',
 ['src/acetimetools/tzcompiler.py',T],
 m(('removals and notes are announced where they are made',T+': _print_comments_map, print_summary'),
   ('the log goes through logging, which swallows failing writes','src/acetimetools/tzcompiler.py: main')),
 obs=['standard error','standard output','exit status','bytes of the output directory'])

NA=[]
def na(id,title,statement,reason,files):
    add(id,title,statement,['inputs','configurations'],'every input tree and flag combination','A handful of hand-picked values is tested.',files,m(('pure transformation',files[0])))
    NA.append((id,reason))
na('C17','The buffer size estimate equals what the device library really needs',
 "The transition buffer size recorded for a zone is the largest number of transition slots the device library uses for that zone in any year of the range. No smaller buffer would do and no larger one is needed.",
 'The estimating library (acetimepy) and the device libraries are not part of this repository and not installed; a stub peer stands in for it (C14), which cannot say what the real one needs.',
 ['src/acetimetools/bufestimator/bufestimator.py'])
na('C18','Generated sources compile against the client libraries',
 "The generated C++, C, Go and Python sources compile and load against the released client libraries for every scope and flag combination. No warning or error depends on the contents of the TZ files.",
 'The client libraries are outside the repository and not available offline; no fault or schedule is involved. (Syntax and references inside the generated files are decoded in C13.)',
 [G+'argenerator.py',G+'gogenerator.py'])

if __name__=='__main__':
    here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    P.sort(key=lambda p:p['id'])
    with open(os.path.join(here,'properties.jsonl'),'w') as f:
        for p in P:
            assert len(p['title'])<=80,p['title']
            f.write(json.dumps(p)+'\n')
