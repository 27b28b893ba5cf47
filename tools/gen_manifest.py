import json
G="src/gxfile.cpp"; GH="src/gxfile.hpp"
def m(*a): return [dict(name=n,where=w) for n,w in a]
P=[
("P01","Record round trip","Every record accepted while writing a symbol (any dimension 0 to 20, any type, any reading and writing method, compressed or not) is delivered when the symbol is read from the closed file, exactly once, with the same key elements, the same number of value fields and bit-identical ordinary values, in ascending key order. The announced record count equals the number of delivered records, and the reported first changed position is the first position where the key differs from the previously delivered one.",
 ["inputs","histories"],"all dimensions, key sequences over the full element range, values and combinations of write and read method",
 "the tests write a few small symbols with small element numbers; delta coding, element size classes and buffer boundaries depend on the key ranges and the distance of consecutive keys",
 [G,GH],m(("record encoder","TGXFileObj::DoWrite"),("record decoder","TGXFileObj::DoRead"),("element size classes","TGXFileObj::InitDoWrite, GetIntegerSize, PrepareSymbolRead"))),
("P02","Special value fidelity","Undefined, NA, plus and minus infinity and EPS written under any writer's special value table are delivered under any reader's table as the reader's value for the same special value, IEEE infinities and NaN arrive as the respective special value, and every other value arrives bit-identical (a zero of either sign as zero). Reading back the table that was set gives the same table, a table with coinciding values is refused, and resetting restores the standard values.",
 ["inputs","configurations"],"all doubles (every bit pattern), all special value tables of the writer and the reader",
 "the tests use the standard table and a handful of values; confusion arises only for particular bit patterns or user tables",
 [G],m(("classification on write","TGXFileObj::DoWrite"),("table setters","TGXFileObj::gdxSetSpecialValues, gdxSetReadSpecialValues, gdxResetSpecialValues"),("lookup","TGXFileObj::gdxMapValue, gdxGetSpecialValues"))),
("P03","Order, duplicate and domain rules while writing","While a symbol is written in raw mode, a record is accepted exactly when its key is strictly after the last accepted one in lexicographic order and, where a domain set is attached, every key element belongs to the domain; in string and mapped mode unordered records are accepted and a duplicate is reported. A refused record is reported with the matching error, is retrievable as an error record, and leaves no trace in the file.",
 ["inputs","histories"],"all sequences of keys, all symbol dimensions and domains",
 "tests contain single examples of an unsorted, a duplicate and an out-of-domain record",
 [G],m(("order and domain check","TGXFileObj::DoWrite"),("sorted insertion","TGXFileObj::gdxDataWriteDone, gdxDataWriteStr, gdxDataWriteMap"),("error records","TGXFileObj::AddToErrorList, gdxDataErrorRecord"))),
("P04","Unique element table","Element names are registered once regardless of letter case, keep the number of their first registration and its spelling, and every lookup by name or number agrees with the list of distinct names in order of first registration, in memory and after the file is closed and opened. Renaming an element changes its name only, is refused when the new name exists or the old one does not, and afterwards lookups find the new name and not the old one.",
 ["inputs","histories"],"all sequences of registrations, look-ups and renames, any number of elements and any names",
 "tests use few names, so hash collisions, table growth and case variants at particular sizes are not met",
 ["src/gdlib/strhash.hpp",G],m(("hash table","TXStrHashList::Add, IndexOf, Hash, HashAll, RenameEntry"),("element table","TUELTable"))),
("P05","User element numbers","The association between user element numbers and elements is one-to-one: a mapped registration assigns the given number to the name or is refused with an error when number or name is already taken otherwise, a string registration returns the existing number or assigns the next free one, and all queries in both directions agree with the registrations made. Numbers assigned on the fly while reading are new, consecutive and kept afterwards.",
 ["inputs","histories"],"all sequences of mapped and string registrations and queries with arbitrary numbers",
 "tests register small dense ranges; sparse and conflicting numbers and growth of the mapping are not covered",
 [G,GH],m(("mapping store","TIntegerMapping::SetMapping, GetMapping"),("element table","TUELTable::AddUsrNew, AddUsrIndxNew, NewUsrUel, GetUserMap"),("api","gdxUELRegisterMap, gdxUELRegisterStr, gdxUMFindUEL, gdxUMUelGet, gdxGetUEL"))),
("P06","Sorted delivery of unordered writes","Records written in any order in string or mapped mode are all stored and delivered exactly once in ascending order of element numbers, and a mapped read delivers records in ascending order of the user's numbers. This holds for any number of records, dimensions and spread of element numbers.",
 ["inputs","histories"],"all permutations, record counts and key ranges, all user numberings",
 "sorting switches method with size and key range, which the small tests do not reach",
 ["src/gdlib/datastorage.hpp","src/gdlib/gmsdata.hpp",G],m(("linked sort","TLinkedData::Sort, AddItem, GetNextRecord"),("quick sort","TTblGamsData::Sort, QuickSort"),("sortedness decision","TGXFileObj::ResultWillBeSorted, TUELTable::GetMapToUserStatus"))),
("P07","File layout and byte order","A written file has the documented version 7 layout: header, index positions, symbol table, element, text, acronym, domain and data sections can be decoded by an independent decoder, which obtains the same content as the library. A file of the same layout written on a machine of the opposite byte order is read with the same content.",
 ["inputs","configurations"],"all files the library can write, both byte orders, compressed and uncompressed",
 "reading and writing in the tests use the same code, so symmetric layout errors and the byte-swapping path go unnoticed",
 [G,"src/gdlib/gmsstrm.cpp"],m(("file writer","TGXFileObj::gdxOpenWriteEx, gdxClose"),("file reader","TGXFileObj::gdxOpenReadXX"),("byte order","TMiBufferedStream::DetermineByteOrder, ReverseBytes, ReadInteger, ReadDouble, ReadWord"))),
("P08","Stream transparency","Bytes written to the file stream with any chunking, positioning and switching between compressed and plain sections are read back identically with any other chunking, and position and size queries reflect the bytes transferred. With a password the stored bytes differ from the plain ones but reading with the same password yields the same bytes at any position.",
 ["inputs","histories"],"all sequences of write, read, seek and compression switches with chunk sizes around and above the buffer size",
 "tests write small amounts, the buffer and block boundaries are never crossed in unusual ways",
 ["src/gdlib/gmsstrm.cpp","src/gdlib/gmsstrm.hpp"],m(("buffered stream","TBufferedFileStream::Read, Write, FillBuffer, FlushBuffer, SetPosition, SetCompression"),("password","TXFileStream::ApplyPassWord, SetPassWord"))),
("P09","Primitive value encoding","Every integer, word, byte, 64-bit integer, double (any bit pattern), string of up to 255 characters, packed integer and packed double (below 1E300, a zero of either sign as zero; special values and acronyms as themselves) written to a stream is read back unchanged by the corresponding read operation and consumes exactly the bytes written.",
 ["inputs"],"all values of each primitive type",
 "tests sample a few values; the packed encodings branch on value ranges and trailing zero bytes",
 ["src/gdlib/gmsstrm.cpp","src/gdlib/gmsstrm.hpp"],m(("primitive codecs","TXStream::WriteString, ReadString, WriteDouble, ReadDouble, ParWrite, ParCheck"),("packed codecs","TMiBufferedStream::WriteGmsInteger, ReadGmsInteger, WriteGmsDouble, ReadGmsDouble"))),
("P10","Name and text validity","A symbol name is accepted exactly when it is a letter followed by letters, digits or underscores, at most 63 characters, and not in use in any letter case; an element name is accepted exactly when after removing trailing blanks it has at most 63 characters, no control character and not both kinds of quotes. Explanatory and set texts are stored with control characters replaced and quotes unified, and nothing else changed within the documented length.",
 ["inputs"],"all byte strings of any length as names and texts",
 "tests check a few literal names",
 [G,"src/gdlib/utils.cpp","src/gdlib/strutilx.cpp"],m(("identifier check","IsGoodIdent, TGXFileObj::IsGoodNewSymbol"),("element check","TUELTable, GoodUELString"),("text sanitising","MakeGoodExplText"))),
("P11","Call order discipline","Each operation succeeds only in the states where it is allowed; called in any other state (including no file open) it reports failure with the mode error and changes neither the data being read or written nor the resulting file. No sequence of calls makes the library crash, and after a refused call the interrupted activity can be continued.",
 ["histories"],"all sequences of API calls in all states",
 "tests exercise intended call orders only",
 [G],m(("mode check","TGXFileObj::MajorCheckMode, CheckMode"),("state changes","TGXFileObj::PrepareSymbolRead, PrepareSymbolWrite, gdxDataReadDone, gdxDataWriteDone, gdxClose"))),
("P12","Filtered and mapped reading","Reading with a domain action per position delivers exactly the records whose elements pass: all with unmapped, those with a user number under strict, those in the given filter under filter, and all with new numbers assigned under expand; keys are given in the respective numbering. Every record left out is counted among the domain violation records (one per offending element, at most eleven) and none is lost otherwise.",
 ["inputs","configurations"],"all filters, user mappings, domain actions per position and data",
 "tests use one-dimensional toy filters",
 [G,GH],m(("filter store","TDFilter::InFilter, SetFilter, TFilterList, TBooleanBitArray"),("mapped reading","TGXFileObj::PrepareSymbolRead, gdxDataReadMap"),("registration","gdxFilterRegisterStart, gdxFilterRegister, gdxFilterRegisterDone"))),
("P13","Error reporting","The number of errors equals the number of failures since the file was opened, the error returned on query is the first since the previous query and the query clears it. The refused records of the current symbol, the first eleven, are retrievable with their keys and values, and every error code has a message.",
 ["histories"],"all sequences of failing and succeeding calls and queries",
 "tests look at single errors",
 [G],m(("error state","TGXFileObj::SetError, ReportError, gdxGetLastError, gdxErrorCount"),("error records","TGXFileObj::AddToErrorList, gdxDataErrorRecordX, gdxDataErrorCount"))),
("P14","Acronyms","An acronym value written is read as the same acronym or, where the reader has mapped its number, as the mapped acronym; numbers not defined when reading receive new unique numbers, and acronyms are turned into the undefined-number value only when the reader asks for that. Names, texts and numbers of acronyms survive the file, and conflicting definitions are refused.",
 ["inputs","histories"],"all sets of acronym numbers, definitions before and after reading, mappings",
 "tests use single acronyms without remapping conflicts",
 [G,GH],m(("remapping","TGXFileObj::AcronymRemap, TAcronymList::FindEntry, CheckEntry, AddEntry"),("api","gdxAcronymAdd, gdxAcronymSetInfo, gdxAcronymGetMapping, gdxAcronymNextNr"))),
("P15","Caller buffers","Every text returned to the caller fits the documented buffer size including the terminator and is always terminated, for inputs of any length. No call reads or writes memory outside the caller's buffers and its own storage.",
 ["inputs","histories"],"all strings of any length at every text parameter, all numbers at every index parameter",
 "tests use short strings",
 ["src/gdlib/utils.hpp","src/gdlib/strutilx.cpp",G],m(("copy helpers","assignStrToBuf, assignPCharToBuf, assignViewToBuf, trimRight"),("query functions","gdxSymbolInfo, gdxSymbolInfoX, gdxGetElemText, gdxSymbolGetComment, gdxErrorStr"))),
("P16","Symbol metadata round trip","Symbol names, order, dimension, type, user info, explanatory text, comments, domains (regular and relaxed), aliases, set texts and producer strings are the same after closing and opening the file as they were given, including files extended by appending, which keep all earlier content.",
 ["inputs","histories"],"all sequences of symbol definitions, any metadata, any number of append sessions",
 "tests check a few symbols with one kind of domain",
 [G],m(("symbol table","TGXFileObj::PrepareSymbolWrite, gdxClose, gdxOpenReadXX"),("domains","gdxSymbolSetDomain, gdxSymbolSetDomainX, gdxSymbolGetDomainX"),("append","gdxOpenAppend"))),
("P17","Agreement of the reading methods","All ways of reading a symbol (record by record, with strings, with callbacks with and without early stop or element filters, as slices, as domain element lists, and the universe as symbol zero or through aliases) deliver the records of the raw read restricted as requested, in the same order and with the same values. Slice positions, slice element names and element counts agree with the elements used in the data.",
 ["inputs","histories"],"all symbols, filters, stop positions and sequences of reads",
 "tests compare few methods on tiny data",
 [G],m(("callback readers","gdxDataReadRawFast, gdxDataReadRawFastEx, gdxDataReadRawFastFilt"),("slices","gdxDataReadSliceStart, gdxDataReadSlice, gdxDataSliceUELS"),("domain elements","gdxGetDomainElements"),("universe","TGXFileObj::DoRead"))),
]
with open('/verif/properties.jsonl','w') as f:
    for i,t,s,ov,q,w,fl,me in P:
        assert len(t)<=80
        f.write(json.dumps(dict(id=i,title=t,statement=s,quantifier=dict(over=ov,text=q),why_tests_cant=w,anchors=dict(files=fl,mechanism=me)))+"\n")
import importlib,sys
sys.path[:0]=['/verif','/verif/engine']
ch=[]
for p in P:
    sp=importlib.import_module('specs.'+p[0])
    lv=sp.LEVEL
    ch.append(dict(property=p[0],quick_cmd="python3 check.py %s quick"%p[0],thorough_cmd="python3 check.py %s thorough"%p[0],
      technique=getattr(sp,'TECH',"contract-based deductive verification of the real code (CBMC contract harnesses over LLVM IR of /repo's sources), with bounded API-level stand-ins"),level=lv,level_note=getattr(sp,'NOTE',"see DESIGN.md")))
json.dump(dict(version=1,setup_cmd="python3 setup.py",checks=ch,not_applicable=[]),open('/verif/MANIFEST.json','w'),indent=1)
