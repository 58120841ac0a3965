import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech]}
    if state: a["state"]=[{"name":s[0],"meaning":s[1],"where":s[2]} for s in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
L="src/libcatnip/"
QC=L+"qc_functions.cpp"; MX=L+"matrix.cpp"; AP=L+"io/argumentparser.cpp"; IO=L+"io/io.cpp"
LR=L+"io/file_readers/logreader.cpp"; PR=L+"io/file_readers/punreader.cpp"; FR=L+"io/file_readers/filereader.cpp"
SS=L+"string_support.cpp"; PP=L+"io/arguments/properties/"; MAIN="src/tools/main.cpp"
p("C01","Effective coupling equals the orthogonalised dimer-projection formula",
 "For any overlap, orbital-coefficient and dimer-energy matrices of consistent sizes, the coupling returned for two monomer orbitals is (J_ab - (e_a+e_b)/2*S_ab)/(1-S_ab^2), where J_ab, e_a, e_b and S_ab are obtained by projecting the two monomer orbitals (monomer 1 zero-padded on the right and monomer 2 on the left, or both used in full under counterpoise) through the overlap matrix onto the dimer orbitals weighted by the dimer energies. The printed J_ab, e_a, e_b and J_eff are those quantities times 27.2114 (eV), S_ab is printed unscaled, and the returned value is J_eff in Hartree.",
 ["inputs"],"all small integer-valued coefficient, overlap and energy matrices over the listed dimensions, with and without counterpoise",
 "The unit tests never call the coupling calculation; the integration tests need downloaded files and sample six molecules.",
 [QC,MX],[("calculate_transfer_integral","projection and Loewdin formula in "+QC),("TransferComplex::calcJ","entry point in "+QC),("operator*, Matrix_diag, Matrix_concatenate_rows, Matrix::invert",MX)],observe=["return value of TransferComplex::calcJ","J_ab/e_a/e_b/S_ab/J_eff lines on stdout"])
p("C02","The requested frontier orbital is the one used, for every selection",
 "For every monomer with any number of orbitals and any HOMO position, asking for HOMO-n or LUMO+n uses exactly that orbital of exactly that monomer, independently of the selection made for the other monomer and of any earlier calculation on the same complex. Selections that do not exist (beyond the lowest or highest orbital, a positive HOMO offset, a negative LUMO offset, or an unknown orbital kind) are refused with an error and produce no value.",
 ["inputs","histories"],"all orbital counts and HOMO positions up to the bound, all selections around and beyond the edges, and sequences of calculations on one object",
 "No unit test selects an orbital; off-by-one errors at the extreme HOMO or LUMO need every count and offset.",
 [QC],[("TransferComplex::calcJ","orbital range checks and getRow in "+QC)],state=[("Orbs1/Orbs2","orbital count and HOMO index of each monomer",L+"qc_functions.hpp")],observe=["return value and stdout of TransferComplex::calcJ","exceptions"])
p("C03","Dimer basis is realigned to the monomers for every atom order",
 "For every order in which the dimer lists the atoms of monomers 1 and 2 (matched by coordinates that agree to four decimals), and any numbers of basis functions per atom, realignment moves each atom's coefficient columns as one block so that monomer 1's atoms come first in monomer 1's order followed by monomer 2's atoms in monomer 2's order. The overlap matrix is permuted the same way along both axes, rows of the coefficient matrix keep their order, and the matrices passed in are left unchanged. Aligning a complex again starts from the matrices as given, and an alignment that is refused changes nothing.",
 ["inputs"],"every permutation of up to 6-7 dimer atoms, every split into two monomers, several block-size patterns, plus structured permutations of larger dimers",
 "The unit test checks one permutation of five atoms; swap-chain bugs show only for particular cycle structures and splits.",
 [QC],[("unscramble_Coef / unscramble_S with two match lists",QC),("refreshSwapOrder, updateSwapLists",QC)],observe=["matrices returned by unscramble_Coef and unscramble_S"])
p("C04","Counterpoise alignment holds for every atom order of dimer and monomer 2",
 "In counterpoise mode, where all three calculations contain all atoms, monomer 2's coefficients and the dimer's coefficients and overlap are reordered to monomer 1's atom order (atoms matched by coordinates that agree to four decimals) for every order of the atoms in each file and any numbers of basis functions per atom. Consequently the coupling does not depend on those orders. Aligning a complex again starts from the matrices as given, and an alignment that is refused changes nothing.",
 ["inputs"],"every pair of permutations of up to 4 atoms (dimer, monomer 2), every permutation of up to 6-7 atoms for the single-list realignment, several block-size patterns",
 "No test of any kind exercises the counterpoise realignment with reordered atoms.",
 [QC],[("TransferComplex::unscramble, counterpoise branch",QC),("unscramble_Coef / unscramble_S with one match list",QC),("refreshSwapOrder (single list)",QC)],observe=["unscramble results","value of TransferComplex::calcJ"])
p("C05","The reported coupling does not depend on atom order in the files (end to end)",
 "Running calc_J on any set of well-formed monomer and dimer files prints the coupling, site energies and overlap that the projection formula gives for the molecules described by the files, whatever order the dimer file lists the atoms in, whichever spin and orbital are selected, and with or without counterpoise. Reordering atoms (with their basis functions) in the dimer file, or naming the files through the .pun or the .log flags, leaves the printed values the same. The output names the files, spins and orbitals used; logs without populations are computed as they stand, with a warning where the coupling printed depends on the order.",
 ["inputs","configurations"],"small synthetic molecules (2-5 atoms, unequal basis sizes, restricted and unrestricted), every dimer atom order, every spin/orbital choice, file naming style, counterpoise on/off",
 "The unit tests never run calc_J; the integration script compares a handful of downloaded molecules.",
 [MAIN,QC,LR,PR],[("main pipeline",MAIN),("TransferComplex::unscramble",QC),("LogReader / PunReader",LR)],observe=["stdout and exit status of calc_J"])
p("C06","Incompatible or unmatchable inputs never yield a coupling",
 "If the matrices have inconsistent sizes (overlap versus dimer, counterpoise monomers not the size of the dimer, monomers larger than the dimer), or the atoms of a monomer cannot be matched one-to-one to the dimer's atoms, the calculation is refused with an error: it never crashes, hangs, reads outside its data or returns a number. Consistent inputs are never refused.",
 ["inputs","configurations"],"all size combinations up to the bound for the three basis sizes and the overlap, and all ways of displacing, duplicating or removing atoms in small geometries",
 "The unit tests construct no TransferComplex at all.",
 [QC,MX],[("TransferComplex::TransferComplex consistency checks",QC),("TransferComplex::unscramble match checks",QC)],observe=["exceptions / exit of TransferComplex constructor, unscramble, calcJ"])
p("C07","Atom matching is exact at the requested number of decimals",
 "Matching rows (or columns) of one matrix against another reports, for each row (column), the position of the row (column) of the other matrix all of whose entries agree with it after rounding to the requested number of decimal places, and -1 if there is none; the two matrices may have different numbers of rows (columns). A zero matches a zero whatever its sign, neither matrix is modified, and matrices with different vector lengths are refused.",
 ["inputs"],"all pairs of small matrices over a value alphabet chosen around rounding boundaries, signs of zero and several magnitudes, for several precisions",
 "The tests match one row of one matrix of small integers; signed zeros, rounding and magnitudes are untested and columns never matched.",
 [MX],[("Matrix::matchRow / matchCol",MX),("double_tos",MX)],observe=["returned index vectors"])
p("C08","Orbital energies and HOMO position are read faithfully from every log",
 "For every well-formed log file, the energies returned for a spin are exactly those listed for it in its last energy listing, in order, occupied before virtual, and the HOMO position is the number of occupied ones; this holds for any count per line, for adjacent numbers that touch without a space, for restricted and unrestricted runs, and whatever else the file contains and in which order. A spin not listed is reported as an error, and so is a listing with a number that was too wide to be printed (asterisks).",
 ["inputs","histories"],"all occupied/virtual counts up to two lines each, per spin, all touching patterns, several section orders and repeated listings",
 "Reading logs is covered only by an integration test that needs downloaded files and asserts nothing about energies.",
 [LR,FR],[("LogReader::ReadOrbEnergies",LR),("splitStEnergies",LR),("FileReader::read section dispatch",FR)],observe=["LogReader::getOE","LogReader::getHOMOLevel"])
p("C09","The overlap matrix is read faithfully for every basis size",
 "For every well-formed log file with N basis functions, the overlap matrix returned is N by N, symmetric, and each entry equals the value printed for that pair in the lower-triangular blocks of five columns, whatever N, the signs and the exponents are; of several tables the last one counts. A log without an overlap table yields an error when the overlap is requested.",
 ["inputs"],"every N from 1 to several blocks, every position of a distinguished value, exponent and sign alphabet, section order",
 "No unit test reads an overlap table; block-boundary sizes (multiples of five) need every N.",
 [LR],[("LogReader::OverlapSectionReader",LR)],observe=["LogReader::getOverlapMatrix"])
p("C10","The geometry read from a log is the last one, complete and in order",
 "For every well-formed log file the coordinates returned are three lists x, y, z giving the atoms of the last geometry table in file order with their exact printed values, for any number of atoms, any number of geometry tables of either header style, and any other sections between them.",
 ["inputs","histories"],"all atom counts up to the bound, sequences of geometry tables with differing sizes and header styles interleaved with other sections",
 "No unit test reads a geometry; stale atoms from earlier tables show only with repeated tables.",
 [LR,FR],[("LogReader::CoordSectionReader",LR)],observe=["LogReader::getCoords"])
p("C11","Basis functions per atom are counted correctly for every molecule",
 "For every well-formed orbital-population table in a log, the per-atom basis function counts are returned in atom order and each equals the number of orbital lines printed for that atom, for any number of atoms, any counts (including a single function), one- and two-letter elements, and restricted or unrestricted columns; the orbital information names the element, the functions and their printed populations. Of several tables the last one counts. A log without the table yields an empty list.",
 ["inputs"],"all sequences of per-atom shell sets up to the bound, element-symbol lengths, restricted/unrestricted columns, and more than nine atoms",
 "No unit test reads a population table.",
 [LR],[("LogReader::AOFunctionSectionReader",LR),("LogReader::getBasisFuncCount",LR)],observe=["LogReader::getBasisFuncCount","LogReader::getOrbitalInfo"])
p("C12","Orbital coefficients of each spin are read faithfully from every pun file",
 "For every well-formed pun file, the coefficient matrix returned for a spin has one row per listed orbital of that spin and one column per basis function, each entry equal to the printed value, for any number of orbitals and coefficients (full or partial last line), whether or not other text follows the last orbital, any signs and exponents, and for restricted files as well as files with both spins. Asking for a spin that is not in the file is an error, and a file counts as restricted exactly when it lists one spin.",
 ["inputs"],"all orbital and coefficient counts over several lines, both spins, value/exponent alphabet",
 "Reading pun files is covered only by an integration test with one restricted downloaded file.",
 [PR,FR],[("PunReader::ReadCoef",PR),("PunReader::readGausCoefLine",PR)],observe=["PunReader::getCoefsMatrix","PunReader::restrictedShell"])
p("C13","A file cut off at any point never hangs the reader or passes for complete tables",
 "Reading any prefix of a well-formed log or pun file terminates promptly without memory errors or unbounded growth. Every table that lies completely inside the prefix is returned exactly as from the whole file unless an error is reported, and a prefix that ends inside an overlap, geometry or orbital-population table, inside a list of orbital energies, or inside the numbers of an orbital's coefficients, is reported as an error or leaves that quantity unavailable, never filled with missing or invented values. (The one exception: a pun file cut between two numbers of its first orbital is itself a well-formed file of one shorter orbital.)",
 ["fault_sequences","inputs"],"every byte-length prefix of several representative log and pun files",
 "No test reads a damaged file; a killed Gaussian job can stop the file at any byte.",
 [LR,PR,FR],[("loops over getline in every section reader",LR),("PunReader::ReadCoef loop",PR)],observe=["termination, exceptions and values of LogReader / PunReader"])
p("C14","Every command line is interpreted faithfully",
 "For every sequence of arguments, each recognised flag, in its short or long form, takes the value that follows it, later occurrences override earlier ones, unmentioned flags keep their defaults, and the counterpoise switch is on when given alone or with ON/TRUE/1 and off with OFF/FALSE/0. Unknown flags, missing values, values outside the allowed choices, wrong file extensions and integers that are not wholly a number are refused with an error.",
 ["inputs","histories"],"every argument sequence up to the bound over an alphabet with every kind of flag, valid values, invalid values and flags in value position",
 "The unit test parses three fixed command lines and never the tool's own flag set.",
 [AP,IO],[("ArgumentParser::parse / parseArg_",AP),("prepareParser flag table",IO)],state=[("*_values_ maps","values after parsing",L+"io/argumentparser.hpp")],observe=["ArgumentParser::getStr / getInt after parse","exceptions"])
p("C15","Input files are resolved from flags and sibling files for every layout",
 "For each of dimer, monomer 1 and monomer 2, the pun and log paths used are: the file named by its flag if it exists; otherwise the existing file with the same directory and stem and the required extension, derived from the other flag; otherwise an error is raised. The choice depends only on the flags and on which files exist, never on the other two molecules, and paths with directories, several dots or spaces are handled.",
 ["configurations","histories"],"every combination of flags (absent, existing file, missing file) and existing sibling files per molecule, several path shapes, repeated flags",
 "Tests check one sibling lookup in the current directory; combinations of present and absent files are untested.",
 [IO,AP,PP+"propertysisterfile.cpp",PP+"propertyfileexist.cpp",L+"parameters.cpp"],[("prepareParameters",IO),("PropertySisterFile::propValid",PP+"propertysisterfile.cpp"),("PropertyFileExist::propValid",PP+"propertyfileexist.cpp")],observe=["Parameters getters after prepareParameters"])
p("C16","Spin, orbital and counterpoise options reach the calculation unchanged",
 "For every combination of spin, orbital type, orbital offset and counterpoise options for dimer, monomer 1 and monomer 2, the prepared parameters hold exactly the values given for each molecule, or Alpha, HOMO, 0 and off when not given. A HOMO with a positive offset, a LUMO with a negative offset, or a value outside the documented choices is refused.",
 ["configurations"],"the full product of option values (given or defaulted) per molecule and pairwise across molecules, in both flag orders",
 "No unit test prepares parameters; crossed wires between the molecules' options show only in combinations.",
 [IO,L+"parameters.hpp"],[("prepareParameters option section",IO),("prepareParser choices and defaults",IO)],observe=["Parameters getters"])
p("C17","Help, citation and version requests succeed without any input files",
 "Asking only for help, the citation or the version (short or long form, in any order and repetition) prints the requested information and ends successfully without reading any file (a version request ends the run at once, so what follows it need not be printed); help lists every flag with its short form and its complete description, for every set of flags a parser may be given. Given together with complete valid input flags, help and citation do not change the computed result.",
 ["inputs","configurations"],"all sequences of informational flags up to length three, alone and mixed into complete command lines",
 "Only an integration script checks -h and -cite once each.",
 [AP,IO],[("ArgumentParser::parse special flags",AP),("ArgumentParser::showUsage",AP)],observe=["stdout and exit status"])
p("C18","Matrix edits follow the plain array model under every operation sequence",
 "For every sequence of element, row and column writes, moves, swaps, resizes and dimension changes, a matrix holds exactly the contents of a plain 2-D/3-D array to which the same edits were applied: untouched entries survive growth and shrinkage, new entries are zero, moving a row or column shifts the ones in between, swapping exchanges exactly two, for square and non-square matrices alike.",
 ["histories","inputs"],"every operation sequence up to the depth bound from every start shape up to 3x3x2",
 "The tests print most results without checking them and only use square matrices for row/column edits.",
 [MX],[("set_rows/set_cols/set_shel/resize",MX),("set_row/set_col/move_row/move_col/swap_row/swap_col",MX)],state=[("elem, rows, cols, shel","contents and shape",L+"matrix.hpp")],observe=["get_elem, get_row, get_col, get_rows, get_cols, get_shel, total_elem"])
p("C19","Matrix algebra agrees with its mathematical definition",
 "For all matrices of compatible sizes, product, transposition, row/column concatenation, diagonal construction, copy, row/column extraction and construction from vectors give exactly the mathematically defined result with the right shape and leave their operands unchanged. Products and concatenations of incompatible sizes are refused.",
 ["inputs"],"all shapes up to the bound and, per shape, every position-distinguishing pattern of entries; all 0/1/-1 matrices of the smallest shapes",
 "The unit tests assert nothing about products, transposes, concatenations or extraction.",
 [MX],[("operator*, invert, Matrix_concatenate_rows/cols, Matrix_diag, Matrix_copy, getRow, getCol, constructors",MX)],observe=["returned matrices"])
p("C20","Matrices are values: copies, assignments and results are independent",
 "After copying, assigning, passing by value or deriving a matrix from another, each object keeps its own contents and shape: no sequence of later changes to one is visible in the other, assigning a matrix to itself changes nothing, and assignment reproduces the source's shape and contents whatever the target held before.",
 ["histories"],"every sequence up to the depth bound of copy, assign, edit and resize operations over three matrix objects of different shapes, including 3-D ones",
 "The test performs one assignment into a fresh object and never edits afterwards.",
 [MX],[("copy construction and operator=",MX)],observe=["all accessors of all live objects after every step"])
p("C21","Out-of-range matrix access is always refused",
 "Any read, write, extraction, move or swap that names a row, column or shelf outside the matrix, or supplies a vector of the wrong length, is refused with an error without reading or changing any memory, and every access inside the bounds succeeds.",
 ["inputs"],"all shapes up to the bound, all index combinations from -1 to two past the end for every accessor, all vector lengths around the right one",
 "No test passes a bad index.",
 [MX],[("bounds checks in get_elem/set_elem/get_row/get_col/set_row/set_col/getRow/getCol/move/swap",MX)],observe=["exceptions / exit, address-sanitizer reports, contents after refusal"])
p("C22","Option validators accept exactly the allowed values, after any settings",
 "After any sequence of option settings, an integer, real, string-length, string-choice, switch, file-extension, file-existence or sibling-file rule accepts a value exactly when the most recent settings allow it, reports back the options as last set, and refuses options it does not know. Checking a value never changes what is allowed, and the same holds when the rules are reached through the argument objects and the parser.",
 ["histories","inputs"],"every sequence of option settings and checks up to the depth bound over boundary-value alphabets for each rule type",
 "Each test sets each option once and checks one accepted and one rejected value.",
 [PP+"propertyint.cpp",PP+"propertydouble.cpp",PP+"propertystring.cpp",PP+"propertystringchoice.cpp",PP+"propertyswitch.cpp",PP+"propertyfileext.cpp",PP+"propertyfileexist.cpp",PP+"propertysisterfile.cpp",L+"io/arguments/argumentobject.hpp"],[("PropertyObject option store",PP+"propertyobject.hpp"),("propValid of each property",PP)],observe=["propValid / argValid results","getPropOption / getPropertyValues"])
p("C23","Orbital ranking sorts all energies of both spins",
 "Ranking the orbital energies of two spins assigns ranks 1..n (n the total number of energies) in ascending energy order, each energy appearing exactly once with its own spin, for any counts of the two spins and with repeated energies.",
 ["inputs"],"all energy lists of both spins up to length 4 over a small alphabet with ties, plus longer structured lists",
 "No test calls the ranking.",
 [QC,MX],[("findRank",QC),("Matrix::getCol",MX)],observe=["returned map"])
p("C24","String and path helpers satisfy their defining laws on all strings",
 "For every string, splitting returns exactly the maximal runs of non-space characters in order; directory part plus last path component gives back the path; text before/after the first or last occurrence of a pattern together with the pattern reassembles the string; trimming removes exactly the leading and trailing white space; the first/last-n helpers and substring and alphabetic tests agree with their definitions.",
 ["inputs"],"every string up to the length bound over an alphabet of letters, dot, slash and white space, and every pattern up to length two",
 "Each helper is tested on one or two strings.",
 [SS],[("splitSt, getPath, lastStringInPath, grabStr*, trim*, firstN/lastN/cut_*, foundSubStrInStr, isAlphabetical",SS)],observe=["return values"])
p("C25","Diagnostics appear exactly when enabled and never alter results",
 "A diagnostic message of level l is printed, once, with its source location and the full text in order, exactly when l is at most the configured log level, for any composition of message parts. Results read or computed are the same at every log level.",
 ["configurations","inputs"],"every configured level 0-3, message level 0-4, message composition up to length three, and a full calculation at each level",
 "The unit test prints one message and checks nothing.",
 [L+"log.hpp"],[("LOG macro and Log/output templates",L+"log.hpp")],observe=["stdout"])
p("C26","A failing run reports failure and prints no coupling",
 "Every run of calc_J that is asked for a calculation either ends with exit status 0 after printing all five result lines, or ends with a non-zero status without printing a J_eff value; it fails whenever a needed file, section or spin is missing, the requested orbital does not exist, the files describe different basis sizes, or monomer atoms are not found in the dimer. It always terminates and never dies on a memory error.",
 ["fault_sequences","configurations"],"every single fault and every pair of faults from a fault menu applied to the six input files and the command line of a small valid calculation",
 "No test runs calc_J on bad inputs (the script's section for failing commands is empty).",
 [MAIN,LR,PR,QC,IO],[("main pipeline",MAIN),("errors raised by readers, parameters and TransferComplex",QC)],observe=["exit status and stdout of calc_J"])
p("C27","Reading is repeatable and readers are independent",
 "Reading the same file again with the same reader, reading several files in any interleaving with several readers, or querying results in any order gives for each file the same results as reading it alone with a fresh reader. Nothing remains of what a reader read before, whether that attempt failed or the file has changed since. Readers accept exactly file names whose last extension is the one they are for (any directory, any number of dots) and report a missing file as an error.",
 ["histories"],"every sequence of read and query operations up to the depth bound over three readers and files of differing content, and a file-name alphabet",
 "Tests read each file once.",
 [FR,LR,PR],[("FileReader::read/open/close and pos_ bookkeeping",FR),("FileReader::fileExt_",FR)],observe=["all reader getters"])
p("C28","Printing a matrix shows its shape and every entry",
 "Writing a matrix of any shape to a stream prints its numbers of rows, columns and shelves and then, shelf by shelf and row by row, every one of its entries, each as that stream writes numbers, and changes neither the matrix nor the other output of the stream.",
 ["inputs","histories"],"every shape up to the bound, matrices over a boundary alphabet, stream formats, and pairs of changes printed in between",
 "The one test that prints a matrix checks nothing.",
 [MX],[("operator<<(ostream&, Matrix&)",MX)],observe=["text written to the stream"])
import os
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
