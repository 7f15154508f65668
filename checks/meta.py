"""Texts: one entry per property; tools/gen.py writes properties.jsonl and MANIFEST.json from it."""
SRC = 'src/oifitslib/'
COMMON = ['clang 18 -O0 + mem2reg IR of the current tree is the program (no macro configuration other than the default one)',
          'GLib and CFITSIO behave as documented; distinct pointer arguments, distinct fields and separately allocated objects do not alias',
          'floating-point comparisons are judged on the three orderings <, =, >; NaN operands are not modelled',
          'obligations the analysis cannot decide are listed as undecided in the evidence and never reported as violations']
P = {}
P['C01'] = dict(
    title='Filtering keeps exactly the records that meet the criteria',
    statement='Applying a filter to a data table keeps a record if and only if its target is the selected one (or all targets are selected), its MJD and baseline lengths lie inside the inclusive filter ranges and, unless flagged data are accepted, at least one of its channels is unflagged with UV radius and signal-to-noise inside their ranges; polarization records are kept if and only if their time span overlaps the MJD range and channels of theirs are selected, as many as for the first record kept (a table has one number of channels). '
    'Every record of the table is examined, and no other criterion influences the choice.',
    over=['inputs', 'configurations'], q='every data table (OI_VIS, OI_VIS2, OI_T3, OI_FLUX, OI_INSPOL), every record position, every filter setting',
    why='The tests filter a few sample files with one or two criteria; they do not reach each boundary of each criterion for each table type in each record position.',
    files=['oifilter.c', 'oifilter.h'], mech=[('filter_oi_vis/vis2/t3/flux/inspol', 'oifilter.c')],
    technique='conditional value-flow analysis of the inlined filter functions under order assumptions per criterion',
    rule='for each table kind, criterion and ordering of record value against each range end (<,=,>), run the value-flow analysis with that ordering assumed: output record count must be provably unchanged (reject) or incremented in every iteration (accept); any comparison of the record against something else is reported')
P['C02'] = dict(
    title='Filtered records carry exactly the selected channels, unaltered',
    statement='Every record written by the filter has all its scalar values equal to those of its source record, and in each per-channel array the j-th element is the value of the j-th selected channel of the same array of that record, with channels of flags, amplitudes, phases, complex values and the reference-channel matrix all selected alike. '
    'Rejected observables are blanked as documented, and the number of channels of every output table equals the number of selected channels.',
    over=['inputs', 'configurations'], q='every table kind, field, channel selection and optional column set',
    why='Tests compare a handful of fields of a few files; a single wrongly indexed optional column or matrix element is not sampled.',
    files=['oifilter.c'], mech=[('per-channel copy loops of filter_oi_*', 'oifilter.c')],
    technique='value-flow analysis: symbolic provenance of each output cell compared field by field',
    rule='for each table kind and option set, the address/value pair of every store into an output record must be (same field, index k) <- (same field of the source record, index = channel loop counter), k counting accepted channels')
P['C03'] = dict(
    title='Filtering keeps the right tables and prunes only unreferenced ones',
    statement='A table is kept by the filter if and only if its ARRNAME, INSNAME and CORRNAME match the given patterns, its observable type is accepted, and it has channels and records left; kept tables are listed, counted and indexed by name in the output. '
    'OI_ARRAY, OI_WAVELENGTH and OI_CORR tables are dropped from the result only when no remaining table refers to them, and every remaining reference still resolves. The output has the primary header of the input, and its OI_TARGET holds every input target, or, when one target is selected, just that target with number 1, which the kept records then refer to.',
    over=['inputs', 'configurations'], q='every dataset and filter: any number of tables of each kind in any order',
    why='Tests use one or two files and few patterns; combinations of several tables of one kind with selective references are not sampled.',
    files=['oifilter.c'], mech=[('filter_all_oi_*', 'oifilter.c'), ('prune_oi_*', 'oifilter.c')],
    technique='value-flow analysis under pattern/selection assumptions; reference-set dataflow for pruning',
    rule='per table kind and criterion outcome, the table count cell ends as old+loop counter or old, list append/hash insert reached accordingly; pruning deletes reachable only when all four/five reference scans found nothing')
P['C04'] = dict(
    title='Every attribute is written to, and read from, its own OIFITS column or keyword',
    statement='Each table writer stores every attribute of every record in the column or header keyword that OIFITS version 2 assigns to it, in the row of that record, with the full number of elements, the standard column format and unit, the correct EXTNAME, OI_REVN and the given EXTVER; each table reader fills every attribute of every record from exactly that column or keyword. '
    'Optional items are written if and only if they are in use (non-empty string, non-negative order, use flag set), are read whenever present, and when absent the attribute is set to its documented unspecified value (empty string, -1, NaN, flag off).',
    over=['inputs', 'configurations'], q='every table kind, attribute, row and combination of optional columns',
    why='The round-trip tests do not exist for most optional columns, and a column swapped consistently or a row/format off by one shows only for particular tables.',
    files=['read_fits.c', 'write_fits.c', 'alloc_fits.c', 'exchange.h'], mech=[('read_*', 'read_fits.c'), ('write_*', 'write_fits.c')],
    technique='value-flow analysis of reader and writer CFITSIO call arguments against a declared OIFITS2 schema, with column layout simulated by dataflow',
    rule='for each reader and for each writer under each combination of optional items: every fits_read_col/fits_write_col/fits_read_key/fits_write_key argument (column by name or by dataflow of the created column list, element type, row, element count, address) must be the one the schema gives for that field; every schema item must be transferred in every row-loop iteration covering 1..n')
P['C05'] = dict(
    title='Every read or write failure is returned, and absent optional items are not',
    statement='If any CFITSIO operation made on behalf of a table reader or writer, read_oi_fits or write_oi_fits fails, the function returns a non-zero status, stores the same value in *pStatus, and prints the error stack exactly when oi_hush_errors is zero; it returns success only if everything succeeded. '
    'A missing mandatory keyword or column (or a truncated table) is an error, a missing optional one is not. '
    'A status already set on entry is returned unchanged and the function does nothing. read_next_* return END_OF_FILE, silently, only when no further table exists. '
    'read_oi_fits fails if the header, target, array or wavelength tables cannot be read, and skips other unreadable tables without failing.',
    over=['inputs', 'fault_sequences'], q='every failure of every CFITSIO call on every path, every subset of absent items',
    why='Tests read sound files; they inject no I/O failure and hardly any missing keyword, so a swallowed status on one path of one table type goes unnoticed.',
    files=['read_fits.c', 'write_fits.c', 'oifile.c'], mech=[('read_*/write_* functions', 'read_fits.c'), ('read_oi_fits/write_oi_fits', 'oifile.c')],
    technique='typestate exploration of the inlined functions over status values with one failing CFITSIO call per path',
    rule='for each public reader/writer and each CFITSIO call site, assume that call (alone) fails with an error / key-not-found / column-not-found / end-of-file code, propagate the finite set of status values along the control-flow graph, and compare the status and return value at every return with the specified outcome for that item')
P['C06'] = dict(
    title='Files are closed exactly once on every path',
    statement='Whatever succeeds or fails, read_oi_fits and write_oi_fits have closed the file they opened exactly once when they return, never use it afterwards and never close a file that was not opened; the table-level functions never close or replace the file handle given to them.',
    over=['inputs', 'fault_sequences'], q='every path through the file functions, every combination of failures of the calls they make',
    why='Tests only follow the paths where everything succeeds; a leaked or doubly closed handle does not change their results.',
    files=['oifile.c', 'read_fits.c', 'write_fits.c'], mech=[('read_oi_fits/write_oi_fits', 'oifile.c')],
    technique='typestate (none/open/closed) exploration with every CFITSIO and table call free to fail',
    rule='handle state is tracked together with status values and the handle variable; an open state at a return, a close in state closed/none or a use in state closed is a violation')
P['C07'] = dict(
    title='Checksums are written last and verified before data are read',
    statement='Every HDU written carries checksum keywords computed after the last modification of that HDU. Every reader verifies the checksums of the HDU it reads before reading table data, warns on standard output for a wrong data checksum and for a wrong HDU checksum, does not warn when the keywords are absent, and reads the data in either case.',
    over=['inputs'], q='every table kind, optional column set and path',
    why='Tests do not compare checksums after optional columns are written, nor feed corrupted files for each table type.',
    files=['write_fits.c', 'read_fits.c'], mech=[('write_oi_*', 'write_fits.c'), ('verify_chksum', 'read_fits.c')],
    technique='typestate exploration (HDU untouched/dirty/clean, unverified/verified) plus value-flow analysis under assumed verdicts',
    rule='writers: no successful return and no move to another HDU in state dirty; readers: no data read and no success before verification in the HDU; with verdict -1 assumed every path prints, with 0 or 1 none does')
P['C08'] = dict(
    title='dup_* functions produce complete and independent copies',
    statement='Each dup_oi_* function returns a newly allocated table whose every scalar attribute equals that of its input and whose every array (including the optional complex-visibility and reference-channel arrays when in use) is a separate, sufficiently large block holding all elements of the same array of its input, for every record and channel.',
    over=['inputs', 'configurations'], q='every table kind, optional array set, number of records and channels',
    why='Tests duplicate tables only indirectly through merging of files without optional arrays, and cannot see shared or short blocks.',
    files=['oifile.c', 'oifile.h'], mech=[('dup_oi_*', 'oifile.c')],
    technique='value-flow analysis: provenance and size of every pointer and scalar of the returned structure',
    rule='for each dup function and option set: result is a fresh block of the structure size; every scalar cell ends equal to the input cell; every array cell holds a fresh block of count*element size filled by a copy of exactly that many bytes from the same array of the input, in every record iteration 0..n-1')
P['C09'] = dict(
    title='free_* functions release everything exactly once',
    statement='Each free_oi_* function frees every array of the table and of each of its records exactly once, including the optional arrays when in use, frees nothing else, and uses nothing after freeing it; free_oi_fits releases the contents and structure of every member of every table list with the function for that table type, then each list, the targets and the name indices, exactly once.',
    over=['inputs', 'configurations'], q='every table kind, optional array set, number of records and number of tables',
    why='A leak or a double free on an optional array does not change test results.',
    files=['free_fits.c', 'oifile.c'], mech=[('free_oi_*', 'free_fits.c'), ('free_oi_fits', 'oifile.c')],
    technique='value-flow and path analysis of free() arguments',
    rule='for each free function and option set: the set of freed pointers equals the set of owned pointers; each is freed in every record iteration over 0..n-1, at most once per path, records block last; per list, contents/member/list released on every path in that order')
P['C10'] = dict(
    title='Files are read and written table by table, completely and resolvably',
    statement='read_oi_fits searches the whole file for each table type and puts every table it could read, once and in file order, into the list for its type, whose count equals its length; tables that could not be read are left out and reported on standard error. '
    'Every non-empty ARRNAME, INSNAME and CORRNAME of a table in the dataset is afterwards resolvable through the name index of its kind, to the first table of that kind with exactly that name. '
    'The header is the one of the file if is_oi_fits_two accepts it, and otherwise derived from the tables as by set_oi_header. '
    'write_oi_fits writes the primary header first, the targets and then every member of every list exactly as stored, numbering EXTVER 1, 2, ... per type. init_oi_fits yields an empty dataset: empty header strings, no targets, empty lists, zero counts and three separate indices keyed by name contents.',
    over=['inputs', 'fault_sequences'], q='files with any number of tables of each type in any order, any subset of them unreadable, any references among them',
    why='Sample files contain few tables of one type, all readable, mostly referring to a single OI_ARRAY and OI_WAVELENGTH.',
    files=['oifile.c', 'oifile.h'], mech=[('read_oi_fits', 'oifile.c'), ('write_oi_fits/init_oi_fits', 'oifile.c')],
    technique='typestate exploration of the bookkeeping around each table read, plus value-flow analysis of index insertions and writer calls',
    rule='per table type: states (scan position, outcome of last read, appended, counted, reported, freed) must agree when the next table is read or the function returns; each index insertion pairs the right index, name field and list member under assumed equal/unequal names and is inevitable after the append; each write call is made for every list member with EXTVER = position+1')
P['C11'] = dict(
    title='Operations leave their inputs unmodified and share no storage with them',
    statement='Filtering (apply_oi_filter, apply_user_oi_filter), merging (merge_oi_fits, merge_oi_fits_list), duplicating (dup_oi_*), writing (write_oi_*), checking (check_*), iterating (oi_*_iter_*), looking up (oi_fits_lookup_*), classifying and counting (is_*, count_oi_fits_data) and formatting or printing summaries do not modify the dataset, tables or filter they are given: no header, table, record, array, list or index of an input is changed, reordered, reallocated or freed. '
    'The result of filtering or merging contains no pointer into its inputs: its tables, arrays, records, list members, index entries and index keys are its own, so that input and output can be modified and freed independently in either order.',
    over=['inputs', 'histories'], q='every dataset and filter, every order of later use and release of inputs and outputs',
    why='Tests free inputs and outputs at the end or not at all and never compare an input before and after; sharing one array of one optional column goes unnoticed.',
    files=['oifilter.c', 'oimerge.c', 'oicheck.c', 'oiiter.c', 'oifile.c', 'write_fits.c'], mech=[('apply_oi_filter', 'oifilter.c'), ('merge_oi_fits_list', 'oimerge.c'), ('write_oi_fits and queries', 'oifile.c')],
    technique='points-to provenance (effect and escape) analysis of the inlined public operations',
    rule='for each public operation, every store and every call of a function that writes through an argument is classified by the object its pointer leads into (input argument, output argument, allocation, local): none may lead into an input; every pointer stored into an output object, list or index, and every pointer member of a structure copied whole, must not lead into an input')
P['C12'] = dict(
    title='Conformance checks report exactly the datasets that breach each rule',
    statement='Each check_* function reports a breach, at the severity of its rule and for every table, record, station and channel it concerns, exactly when the rule is broken: mandatory tables and OI_REVN for the format version; header keywords (OIFITS 2); allowed FRAME/AMPTYP/PHITYP/CALSTAT/FOVTYPE values; VISREFMAP against AMPTYP/PHITYP; repeated target names; missing referenced targets, ARRNAMEs, array elements and OI_CORR tables; negative unflagged errors; T3AMP more than one error above 1; descending wavelengths; non-zero TIME in OIFITS 2; OI_FLUX CALSTAT against ARRNAME/STA_INDEX/FOVTYPE. '
    'A result starts empty, counts every occurrence, keeps the worst severity (which the function returns), the description of the first occurrence and the locations of the first ten inside its fixed list, each naming the kind of table, its number from 1 and, where one is concerned, the record and channel numbers from 1; format_check_result gives severity, description, count and as many locations as there are, in order, or NULL when there is no breach.',
    over=['inputs', 'configurations'], q='every dataset: any number of tables, records and channels, any attribute values, both format versions, any number of breaches',
    why='Tests run the checks on a few conformant or singly broken files; severity, second tables, later stations and channels, and more breaches than the list holds are not sampled.',
    files=['oicheck.c', 'oicheck.h'], mech=[('check_*', 'oicheck.c'), ('init_check_result/set_result/format_check_result', 'oicheck.c')],
    technique='value-flow analysis under assumed attribute values (decision table per rule), with must-reach and scan-coverage analysis of the recording sites',
    rule='per rule and case of its decision table: with the attributes assumed, no recording site is reachable (conforming) or one is inevitable in every iteration of the enclosing scans with the severity of the rule, and the scans cover every table/record/station/channel; stores to the location list stay inside it in order')
P['C13'] = dict(
    title='Merging keeps every table and renames its references consistently',
    statement='merge_oi_fits and merge_oi_fits_list put a deep copy of every OI_CORR, OI_INSPOL, OI_VIS, OI_VIS2, OI_T3 and OI_FLUX table of every input (all variable arguments included) into the output exactly once, in input order and counted. '
    'Same-named targets become one, numbered 1, 2, ... in order of appearance; the CATEGORY column is in use when any input uses it, and a value is kept when its own input does. An OI_ARRAY or OI_WAVELENGTH is reused only for inputs that agree with it (array centre and all stations by STA_INDEX to 1e-10, diameter to 1e-3, field of view when both are revision 2 or later; same channels in order to 1e-10); a new table whose name is taken gets a name not in use. '
    'Every TARGET_ID, ARRNAME, INSNAME and CORRNAME (per record in OI_INSPOL) is replaced by that of the output entry its input entry became; empty ARRNAME and CORRNAME stay empty. Tables are brought to their OIFITS 2 revision (TIME zeroed where that changed it). '
    'Header: CONTENT OIFITS2, DATE-OBS the earliest input date; each other keyword is the value the inputs share, MULTIPLE when they differ, and if none has it UNKNOWN for the mandatory ones, empty for the rest.',
    over=['inputs', 'configurations'], q='any number of inputs, each with any number of tables, targets, stations, channels and records, any names (clashing, long, empty) and any header values',
    why='Tests merge two or three sample files; third inputs, clashing or long names, almost-equal arrays, optional references and late mismatches are not sampled.',
    files=['oimerge.c', 'oimerge.h', 'oifile.c'], mech=[('merge_*', 'oimerge.c'), ('upgrade_oi_*', 'oifile.c'), ('dup_oi_*', 'oifile.c')],
    technique='value-flow and must-reach analysis of the copies, list appends, counts and renames per table kind, under assumed comparison and lookup outcomes',
    rule='per kind: under every case (matched / clashing / new; reference empty or not; revision 1 or 2) the append, count, rename and hash entry of each table are inevitable in each iteration over all tables of all inputs, with the copy, list, name and hash list of that same input; per header keyword: the last value set for 0, 1, 2 and 3 inputs that give it')
P['C14'] = dict(
    title='Iterators visit exactly the data that meet the filter, in order',
    statement='oi_vis_iter_init, oi_vis2_iter_init and oi_t3_iter_init start before the first datum of the first table of their kind, with a copy of the filter given, or the default filter if none. '
    'Successive calls of oi_*_iter_next return true once for each datum that meets every criterion (none in a table without OI_WAVELENGTH), channel by channel, then record by record, then table by table, and false when there is none left: kind wanted; ARRNAME, INSNAME and CORRNAME match their patterns; TARGET_ID equal to that of the filter unless that is negative; MJD, baseline length (all three baselines for triple products), wavelength, uv radius and signal-to-noise ratio in range, end points included (for triple products only the SNR of amplitude and phase if wanted); flagged data only if accepted. '
    'The locations given receive the EXTVER of the table (counted from 1), the table, record number, record and channel of that datum; a NULL location is left alone. oi_*_iter_get_uv gives the effective wavelength of the current channel in the OI_WAVELENGTH table the current table refers to, and each coordinate of the current record divided by it.',
    over=['inputs', 'configurations', 'histories'], q='every dataset (any number of tables, records and channels), every filter, every position of the iterator',
    why='Tests iterate over one sample file with few filters; boundary values, later tables with other wavelengths and rejected data at the ends of records are not sampled.',
    files=['oiiter.c', 'oiiter.h'], mech=[('oi_*_iter_next', 'oiiter.c'), ('oi_*_iter_init/get_uv', 'oiiter.c')],
    technique='value-flow analysis of the iterator state under assumed positions and assumed relations of each datum to each criterion',
    rule='per kind: for each criterion and relation (below/at/inside/at/above, same/other) the datum is returned or not as specified; for each kind of position the next state and every value handed out equal the specified ones; the judged record, channel and wavelength are those of the new position; initial state and uv results equal the specified terms')
P['C15'] = dict(
    title='Arrays are as long as their counts and nothing is accessed outside them',
    statement='In every table made by alloc_oi_*, the readers, dup_oi_*, filtering or merging, each array has room for at least as many elements of its type as the count that goes with it says: nelement, ntarget, nwave, ncorr or numrec of its table, nwave squared for VISREFMAP; alloc_oi_* sets the counts it is given and gives every record all its arrays, with the optional ones of OI_VIS (VISREFMAP and complex visibilities) NULL and their use flags off. '
    'Given data tables with as many channels as the OI_WAVELENGTH they name, no library function reads or writes an element before the first or at or after the count, or a breach location past the end of the list in oi_check_result, whatever the counts. '
    'Text put into a fixed-size character field or buffer, whatever its length in the file, in memory or on the command line, fits there with its terminating NUL; a string column wider than the field is rejected or cut short.',
    over=['inputs', 'histories'], q='every dataset and file (any counts, any string lengths), every library function and command-line program',
    why='Tests use well-formed files with small tables; an array one element short or an index one past the end usually goes unnoticed, and over-long strings or lists are not sampled.',
    files=['alloc_fits.c', 'read_fits.c', 'oifile.c', 'oifilter.c', 'oicheck.c', 'write_fits.c', 'free_fits.c'],
    mech=[('alloc_oi_*', 'alloc_fits.c'), ('read_next_oi_*', 'read_fits.c'), ('format_check_result', 'oicheck.c')],
    technique='symbolic-length analysis: linear relations between allocation sizes, counts, loop bounds and indices over the inlined functions',
    rule='every allocation stored in an array member is compared with element size times count; every array access and every transfer, copy or formatting into a buffer is bounded from the branch conditions that dominate it and the loop counters; an access whose largest or smallest index provably lies outside, or an allocation or buffer provably smaller, is reported')
P['C16'] = dict(
    title='Dataset queries, counts, derived headers and upgrades are right',
    statement='is_oi_fits_two is true exactly when CONTENT is "OIFITS2"; is_oi_fits_one exactly when it is not and OI_REVN is 1 in OI_TARGET and in every OI_ARRAY, OI_WAVELENGTH, OI_VIS, OI_VIS2 and OI_T3 table (other kinds are ignored). '
    'is_atomic is true exactly when there is at most one OI_ARRAY, one OI_WAVELENGTH and one target, and the span from the earliest to the latest MJD of all records of all OI_VIS, OI_VIS2, OI_T3 and OI_FLUX tables does not exceed the limit. '
    'count_oi_fits_data gives the number of unflagged channels over all records and tables of each kind wanted, and leaves NULL locations alone. '
    'set_oi_header sets TELESCOP (ARRNAME of the only array, UNKNOWN if none), INSTRUME (INSNAME of the only OI_WAVELENGTH) and OBJECT (name of the only target), each MULTIPLE otherwise, ORIGIN, OBSERVER and INSMODE to UNKNOWN and DATE-OBS to the day of the earliest MJD as YYYY-MM-DD, and changes nothing else. '
    'upgrade_oi_target, _array, _wavelength, _vis, _vis2 and _t3 turn revision 1 into 2, zeroing TIME of every record of the data tables, and leave other revisions and everything else unchanged.',
    over=['inputs', 'configurations'], q='every dataset: any number of tables, records and channels, any revisions, MJDs and flags, any limit',
    why='Tests query a few sample files; extremes in the last table or of another kind, limits met exactly, flags in later records and empty lists are not sampled.',
    files=['oifile.c', 'oifile.h'], mech=[('is_oi_fits_one/is_oi_fits_two/is_atomic', 'oifile.c'), ('count_oi_fits_data', 'oifile.c'), ('set_oi_header', 'oifile.c'), ('upgrade_oi_*', 'oifile.c')],
    technique='value-flow analysis of return values, accumulators and running extremes under assumed attribute values, with scan-coverage analysis of the table, record and channel loops',
    rule='per function and case of its decision table the returned or stored value equals the specified one; running extremes and counts: every record or channel of every table of each kind enters the merge web with the right relation, none is skipped, reset or cut off; header values: last string written per keyword and case; upgrades: exact set of stores per revision')
P['C17'] = dict(
    title='The command-line programs do their work completely and report failures',
    statement='Each program given a wrong number of arguments (oifits-filter: also a wrong option) exits with status 2 and touches no file; exits non-zero when a file cannot be read or written, writing nothing after a read failure; and otherwise exits 0. '
    'oifits-check prints the summary of the file, runs all fourteen check_* functions on it, prints every result that has a breach and only those, releases every result after that, and says "All checks passed" exactly when none has. '
    'oifits-filter knows the filter options and --clobber (-o, off by default), applies the user filter to INFILE and writes the result to OUTFILE; an existing OUTFILE is kept and the exit status non-zero unless --clobber is given, and is otherwise removed just before writing (if that fails, nothing is written), never before the result is ready. '
    'oifits-merge reads INFILE1, INFILE2, ... into datasets of their own, merges all of them in that order and writes the result to OUTFILE. '
    'oifits-upgrade refuses (non-zero, nothing written) input that is OIFITS 2 or has no OI_ARRAY, and else writes the dataset to OUTFILE with ORIGIN, OBSERVER and INSMODE from its arguments.',
    over=['inputs', 'fault_sequences', 'configurations'], q='every argument count, every outcome of reading, writing, existence test and removal, every combination of check results, any number of merge inputs',
    why='The test suite does not run the programs on failing files, existing outputs or breached datasets; a wrong exit status or an overwritten file goes unnoticed.',
    files=['src/util/oifits-check.c', 'src/util/oifits-filter.c', 'src/util/oifits-merge.c', 'src/util/oifits-upgrade.c'],
    mech=[('main', 'src/util/oifits-check.c'), ('main', 'src/util/oifits-filter.c'), ('main', 'src/util/oifits-merge.c'), ('main', 'src/util/oifits-upgrade.c')],
    technique='path and event-order analysis of each main function under assumed outcomes of the library calls, with finite-state exploration of the variables a loop carries',
    rule='per program and combination of outcomes: exit status on every remaining path; which library calls are inevitable, unreachable and in which order; where the file names and objects they get come from; for the loop over the checks, the value carried is followed from every reachable state under every result level')
P['C18'] = dict(
    title='Lookups return the entry asked for, or NULL',
    statement='oi_fits_lookup_array, _wavelength and _corr return the table listed under the given name in the index of their own kind, NULL if none is. '
    'oi_fits_lookup_element returns the first station whose STA_INDEX equals the one given in the OI_ARRAY of the given ARRNAME, oi_fits_lookup_target the first target whose TARGET_ID equals the one given and oi_fits_lookup_target_by_name the first target whose whole name is exactly the given one; '
    'each looks at every entry whatever their number and order, returns NULL when none matches, and oi_fits_lookup_element returns NULL, without accessing anything, when there is no such array.',
    over=['inputs', 'histories'], q='every dataset: any number of entries in any order, any key',
    why='Tests look up entries that exist, near the start of sorted tables; unordered, negative or missing numbers, names sharing a beginning and a missing array are not sampled.',
    files=['oifile.c'], mech=[('oi_fits_lookup_*', 'oifile.c')],
    technique='value-flow analysis of the inlined lookup functions under assumed outcomes of the comparison of the key',
    rule='per lookup: the values returned when every entry matches (must be the first entry of the right array) and when none does, separately for smaller, larger, same-prefix and other-case keys (must be NULL, after an induction over all entries with no other way out); for the indexed ones, index and key handed to the hash table lookup')
P['C19'] = dict(
    title='A failed allocation ends the program with a message and is never used',
    statement='chkmalloc(size) and chkrealloc(ptr, size) return exactly the block that malloc(size) or realloc(ptr, size) gave them, asked for with the size they were given; '
    'when that fails, or when size is zero, they print a message on standard error and abort, and they never return NULL. They never abort otherwise. '
    'Everything the library and the command-line programs allocate comes from them, from GLib functions that likewise abort, or is checked before it is used: no function goes on with a block it did not get.',
    over=['fault_sequences', 'inputs'], q='every allocation call site, any size, failure of any allocation',
    why='Tests make two allocations fail; they cannot make each allocation in the library fail in turn.',
    files=['chkmalloc.c', 'chkmalloc.h'], mech=[('_chkmalloc/_chkrealloc', 'chkmalloc.c')],
    technique='control-flow and value-flow analysis of the allocation wrappers under assumed failure and success, and of every direct use of a failing allocator',
    rule='wrappers: returned value, requested size, reachability of abort and of return, message on every path to abort, for size zero, allocation failed, allocation succeeded; program-wide enumeration of allocator calls: each is a wrapper or aborting GLib call, or no return is reachable (or the value is not used) when it is assumed to have failed')
P['C20'] = dict(
    title='Filter defaults and command-line filter options are right',
    statement='init_oi_filter makes a filter that accepts everything: patterns "*" (none compiled), no particular TARGET_ID (negative), MJD 0 to 1e7, wavelength 0 to 1e-4 m, baseline 0 to 1e4 m, UV radius 0 to 1e11, SNR -5 to 1e10, all accept_* non-zero. '
    'The group from get_oi_filter_option_group has the options --arrname, --insname, --corrname (strings), --target-id, --accept-vis, -vis2, -t3amp, -t3phi, -flux, -flagged (integers), --mjd-, --wave-, --bas-, --uvrad- and --snr-min and -max (real numbers). '
    'After parsing, each option given has set exactly its own member of the filter that get_user_oi_filter returns (names whole up to 70 characters, wavelengths converted from nm to m, all else as given), and each not given leaves the default. apply_user_oi_filter applies that filter to the given dataset into the given output.',
    over=['inputs', 'configurations'], q='every combination of options and values',
    why='Tests run the filter with one or two options; an option writing to the wrong member, a lost unit conversion or a shortened pattern shows only for that option.',
    files=['oifilter.c'], mech=[('init_oi_filter', 'oifilter.c'), ('get_oi_filter_option_group', 'oifilter.c'), ('filter_pre_parse/filter_post_parse', 'oifilter.c'), ('apply_user_oi_filter', 'oifilter.c')],
    technique='value-flow analysis of the initialiser and the parse hooks, composed with the constant option table read from the program',
    rule='per member: value on every return of init_oi_filter and of the hook run before parsing; per option: argument type and destination in the option table, and the value of its filter member after the hook run afterwards as a multiple of the destination; hooks and table belong to the group returned; arguments of apply_oi_filter')
P['C21'] = dict(
    title='Text summaries show what the dataset or filter holds',
    statement='format_oi_fits_summary starts a new text, gives the OIFITS version (2 exactly for a dataset that is_oi_fits_two accepts), each of ORIGIN, DATE, DATE-OBS, TELESCOP, INSTRUME, OBSERVER, OBJECT, INSMODE and OBSTECH with its own value, '
    'and for each of the eight kinds of table with a list the number of tables and then, under that heading, one entry for every table in the list in order, numbered from 1, with its own names (ARRNAME, INSNAME, CORRNAME, DATE-OBS as far as the kind has them) and sizes (elements, channels, records), and for OI_WAVELENGTH the shortest and the longest wavelength of all its channels in nm. '
    'format_oi_filter starts a new text and gives each name pattern, TARGET_ID (any if negative), the lower and upper limit of each range (wavelengths in nm) and, for each kind of data and all-flagged records, whether it is accepted, each from its own member of the filter. '
    'print_oi_fits_summary and print_oi_filter print exactly that text once on standard output.',
    over=['inputs', 'histories'], q='every dataset (any number of tables of each kind), every filter, any earlier call',
    why='Tests call the functions without reading the text, so a value under the wrong label, a table left out, or text left over from an earlier call is not noticed.',
    files=['oifile.c', 'oifilter.c'], mech=[('format_oi_fits_summary', 'oifile.c'), ('format_*_list_summary', 'oifile.c'), ('format_oi_filter', 'oifilter.c'), ('print_oi_fits_summary/print_oi_filter', 'oifile.c')],
    technique='value-flow analysis of every formatted piece of text with the label it stands under, and coverage of the list walks that produce them',
    rule='per label: member whose value is printed, on every path; per kind of table: list walked from its first to its last member, entry under its own heading, numbering, names and sizes; shortest and longest wavelength as an induction over all channels under assumed order; filter text under each assumed value of each accept_* member and of TARGET_ID; start of a new text before the first piece; text and stream handed to the print calls')
P['C22'] = dict(
    title='Calendar dates and Modified Julian Days convert into each other exactly',
    statement='For every day from 1901-01-01 to 2099-12-31 date2mjd(year, month, day) returns the Modified Julian Day at the start of that Gregorian date, and for every MJD from 15385 to 88068 mjd2date gives the year, the month (1-12) and the day of the month (1-31) of that day, so that each undoes the other; neither ends the program nor computes with a value that does not fit its type in that range.',
    over=['inputs'], q='all 72684 days of the range',
    why='The tests convert three dates (two of them the ends of the range); an error in the leap day, in one month or around a particular year shifts DATE-OBS of merged and new files without being noticed.',
    files=['datemjd.c'], mech=[('date2mjd', 'datemjd.c'), ('mjd2date', 'datemjd.c')],
    technique='abstract interpretation of both functions in the domain of linear forms over ranges of days and years, partitioned where a quotient or comparison changes its value',
    rule='per class of year modulo four and month, with the year and the day symbolic: the form returned is the one the Gregorian calendar gives; per range of MJDs on which all quotients are constant: year and month are those of the calendar and the day is linear with slope one; every intermediate form fits its type')
