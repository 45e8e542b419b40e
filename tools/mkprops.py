#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe or [],hook_needed=None)))
RT="TestingFramework/tfRegressionTest.cpp"; ME="TestingFramework/tfMeasurement.cpp"; MH="TestingFramework/tfMeasurement.h"
MV="TestingFramework/tfMeasurementVisitor.cpp"; B6="TestingFramework/tfBase64.cpp"; DF="TestingFramework/tfDiff.cpp"
PN="FileUtilities/PathName.cpp"; FU="FileUtilities/FileUtilities.cpp"; PX="TestingFramework/tfPipeToXML.cxx"
IR="itktf/itktfRegression.h"; IC="itktf/itktfRegression.cxx"; CV="itktf/itktfCompareVisitor.cxx"; DV="itktf/itktfDifferenceVisitor.cxx"
DI="itktf/itktfDifferenceImageFilter.txx"; IM="itktf/itktfImageCompare.cxx"

p("C01","A run that failed never reports success",
"If any step of a test run (parsing the arguments, opening or reading files, the test body, finishing the output) ends in an exception, the run's result is non-zero, whatever result was declared as expected. Otherwise the result is the test body's return value if that differs from the expected one, and else the number of mismatches if the run compared against a baseline and 0 if it only recorded. Command line drivers hand that result on unchanged as their exit value.",
["inputs","fault_sequences"],"every combination of: step at which an exception of any type is thrown, test body return value, declared expected value, record or compare mode, number of mismatches",
"The tests run a few fixed drivers to completion; none combines a fault in a step with an expected return value.",
[RT,IC,PX,IM],[("the driver's main routine and its catch blocks","RegressionTest::Main"),("tool mains","tfPipeToXML.cxx, itktfImageCompare.cxx, itk::Regression::Main")])
p("C02","Each compared measurement is one match or exactly one mismatch",
"When comparing, recording a measurement that has no baseline entry left, that differs in name or type from its entry, or that is judged different raises the reported number of mismatches by exactly one, and the recording call returns non-zero; a measurement judged equal leaves that number alone and the call returns 0. Nothing else in a completed run changes the reported number.",
["inputs","histories"],"every sequence of recorded measurements against every baseline, and every way the comparison of one measurement can come out",
"The tests cover a few mismatch totals (3 and 6); they cannot cover each outcome at each position, nor that nothing else touches the total.",
[RT],[("compare step","RegressionTest::CompareMeasurement, UnmatchedMeasurement, DifferenceMeasurement, MatchedMeasurement"),("mismatch counter","field inputUnmatched returned by Main")])
p("C03","The n-th measurement is compared with the n-th baseline entry",
"When comparing, the n-th measurement recorded is compared with the n-th measurement element of the baseline document, in document order, whatever the earlier comparisons gave. Every baseline entry is compared at most once, and once all are used up every further measurement is reported as unmatched.",
["inputs","histories"],"every baseline document and every sequence of recorded measurements, mismatching ones included",
"Tests use a handful of sequences; order and one-entry-per-measurement must hold after any history of matches and mismatches.",
[RT],[("baseline queue","RegressionTest::Input, CompareMeasurement, ReadXMLInput, end()")])
p("C04","Without tolerance, equality means same name, type and bytes",
"When no tolerance applies, a measurement is judged equal to a baseline entry exactly when names are the same, types are the same, and the contents have the same length and the same bytes. A measurement held in a file is judged by the content of that file, loaded under its own type and name; a file type without an in-memory form is never judged equal that way. A comparison of a numeric measurement with a non-numeric entry is never equal.",
["inputs"],"all names, types, contents and lengths on both sides, embedded zero bytes and empty contents included",
"Equality over all contents cannot be sampled; the tests never present same-prefix or different-length contents.",
[ME,MH,MV],[("equality of measurements","DataMeasurement::IsEqual, MeasurementFile::IsEqual, Measurement::operator=="),("comparison visitor","CompareVisitor::Visit")])
p("C05","Tolerance only when asked for, and by the documented formula",
"A numeric comparison is tolerant only if the recording call asked for tolerance and the configured tolerance is not zero; two values u and v are then equal exactly when |u-v| <= e|u|, or |u-v| <= e|v|, or both are below the type's epsilon, with the difference computed without overflow. A content that cannot be read as a number is equal only to the identical content, and booleans are equal only if they are the same.",
["inputs"],"all pairs of values including extremes, NaN, infinities and unreadable text, and all tolerances",
"The tests compare a handful of close values; extremes, NaN and the asymmetric cases are never exercised.",
[MH,ME,MV,RT],[("tolerant comparison","NumericData::_IsEqualTolerant, IntegerNumeric/FloatNumeric/DoubleNumeric/BooleanNumeric::IsEqualTolerant"),("switch","CompareVisitor::SetTolerance/SetToleranceOff/Visit(NumericData&), RegressionTest::CompareMeasurement")])
p("C06","Every recording call records or compares exactly its own measurement",
"Each recording call, in record mode, writes exactly one measurement element carrying the given name, the call's own type and the given value (for files: the bare file name) and returns 0; in compare mode it writes nothing of its own, compares exactly that measurement (for files: under the full file name) once with the tolerance flag it was given, and returns that comparison's result.",
["inputs"],"every recording call of the test base classes, all names and values, both modes, both tolerance flags",
"Sibling recording calls must all agree; the tests call some of them with a few values.",
[RT,"TestingFramework/tfRegressionTest.h",IC],[("recording calls","RegressionTest::Measurement*, itk::Regression::MeasurementInsightFileImage")])
p("C07","Recorded output is well formed whatever the names and contents",
"In what is written for a measurement, every name, type, encoding, compression and content reaches the output only with all markup characters replaced by their escapes (&, <, > in text; also the double quote in attribute values), every other character kept, none lost, duplicated or reordered. Each element has its start tag first, then the content, then the matching end tag; only where the user switched escaping off are the texts written as they are.",
["inputs"],"all strings used as name, type, encoding, compression or content, for every measurement class",
"Well-formedness must hold for all strings; the tests record a few with markup in the content and none in a name.",
[ME,MH],[("escaping","Measurement::ApplyEscapeSequences, PrintContent"),("tags","PrintStartTag, PrintEndTag, Print")])
p("C08","What record mode writes is what compare mode reads",
"A recorded document starts with an XML declaration, has one output element around all measurements, closed when the run finishes, and uses only element and attribute names that the baseline reader recognises for that element. Every measurement type string that can be written is turned by the reader into a measurement of that same type carrying the name, encoding and compression attributes that were written. Comment text in the header cannot break the document.",
["inputs","programs"],"every concrete measurement class and attribute, every run in record mode",
"Agreement of writer and reader must hold for every type and attribute; tests re-read only hand-made baselines of some types.",
[RT,ME],[("writer","WriteXMLOutputStart/End, PrintStartTag/PrintEndTag"),("reader","start/end/data callbacks, CreateDataMeasurement")])
p("C09","A malformed baseline is rejected, never a crash",
"For every input document, reading the baseline either yields its list of measurements or ends in an exception that the run reports; it never (memory exhaustion aside) dereferences a missing object, trips an internal assertion or keeps parsing after the parser reported an error. Unexpected elements, missing attributes and nested elements are survivable.",
["inputs","fault_sequences"],"all documents (any sequence of element start, end and text events with any attributes) and any read error",
"Tests feed only well-formed baselines of the expected shape.",
[RT],[("parser callbacks","start/end/data"),("read loop","RegressionTest::ReadXMLInput")])
p("C10","The whole baseline file reaches the parser, byte for byte",
"Reading a baseline passes each chunk of the file to the XML parser with exactly the number of bytes that were read, never more than the buffer holds, until the end of the file, and tells the parser about the end exactly once. All text inside a measurement element, in any number of pieces, becomes that measurement's content and no other's.",
["inputs","fault_sequences"],"all file sizes (multiples of the buffer size and empty files included) and all ways the parser may split text",
"Tests use small baselines, mostly below one buffer.",
[RT],[("read loop","RegressionTest::ReadXMLInput"),("text callback","data(), end()")])
p("C11","Every measurement type reaches the right handler in every visitor",
"For every concrete measurement class and every visitor class, visiting dispatches on the measurement's own class and falls back along its base classes. A comparison visitor always stores a fresh verdict; numeric measurements always go through the tolerance-aware comparison; a difference visitor always reports something for a difference, plain text as a line diff and anything else as both values labelled test and baseline.",
["inputs","programs"],"every pair of a concrete measurement class and a visitor class, including the image-aware ones",
"The tests visit a few pairs; hidden overloads and missing overrides show only for specific pairs.",
[MV,"TestingFramework/tfMeasurementVisitor.h",ME,CV,DV,"itktf/itktfCompareVisitor.h","itktf/itktfDifferenceVisitor.h"],[("double dispatch","AcceptVisitor / Visit overloads")])
p("C12","A run releases everything it acquired, exactly once",
"On every way through a run, normal or ending in an exception, (memory exhaustion aside) each object, stream, parser, buffer and measurement the framework created is released exactly once, none is used after its release, and the output file is closed before the run's result is returned.",
["inputs","fault_sequences"],"all paths through the driver, reader and comparison step, with an exception at any call that can throw",
"Leaks, double releases and use after release on exceptional paths are not visible in the tests' pass/fail.",
[RT,MV],[("streams and baseline list","BeginMeasurement, EndMeasurement, Main, ReadXMLInput, ReadXMLInputFree, CompareMeasurement, DifferenceMeasurement")])
p("C13","Library helpers release what they acquire, exactly once",
"Loading and comparing file measurements, the cached decoded content of a measurement, text differencing, directory listing and running a child process release every buffer, handle and object they acquire exactly once on every path, exceptional ones included, and never touch it afterwards; assigning or copying a measurement never shares or loses a buffer.",
["inputs","fault_sequences"],"all paths through these helpers, with an exception at any call that can throw, and all copy/assign histories",
"Resource errors on error paths never show in the tests.",
[ME,DF,PN,PX],[("buffers and handles","MeasurementFile::Load/IsEqual, DataMeasurement cache and copy operations, Diff, PathName::SearchDirectory, tfPipeToXML Test")])
p("C14","No decision rests on an undefined value",
"No function of the framework reads a variable, object member or array cell before it has been given a value, on any path: constructors leave no member that is later read undefined, and a failed system or stream call never leaves a result that is used as if it had succeeded.",
["inputs","fault_sequences"],"all paths of all functions, with any library or system call failing where it can",
"Undefined reads give plausible values in a test run.",
[ME,MH,RT,PN,FU,B6,DF],[("constructors and out-parameters","all classes; GetValue, GetCurrentDirectory, WriteXMLOutputStart, IsBase64/Decode")])
p("C15","Base64 encoding follows RFC 2045",
"Encoding maps every three input bytes, most significant bit first, to four characters of the standard alphabet, completes a final group of one or two bytes with two or one '=' characters, and inserts nothing else but the optional line breaks, which keep every line within 76 characters; the output has exactly the characters that were produced, with no unused trailing positions. The decoding table is the exact inverse of the alphabet.",
["inputs"],"all byte strings of all lengths, with and without line breaks",
"No test touches Base64 at all.",
[B6,"TestingFramework/tfBase64.h"],[("bit layout and tables","Base64::Encode, base64chars, base64bits")])
p("C16","Base64 decoding accepts exactly valid input and stays in bounds",
"For every input string the validity check returns 0 or the exact number of bytes decoding writes, and decoding writes exactly that many bytes, each made of the right bits of the right characters; input that the check rejects makes decoding throw. Every byte value is a legal table position, padding ends the data, and no detected error is dropped.",
["inputs"],"all strings over all 256 byte values, with and without ignoring invalid characters",
"No test touches Base64; agreement between checker and decoder must hold for all strings.",
[B6,ME],[("validity check and decoder","Base64::IsBase64, Base64::Decode"),("sizing of the decode buffer","DataMeasurement::UpdateContentAsData")])
p("C17","Command line options: only leading ones, consumed exactly once",
"Leading -I, -O, -R and -P options are each consumed together with the one value that follows, the remaining arguments reach the test body in their original order with argv[0] in place, and parsing stops at the first other argument. An unreadable input file or search directory ends the run with an error, an option at the end without a value never hangs or reads past the arguments, and each value has exactly its documented effect.",
["inputs"],"all argument vectors",
"Tests use eight vectors; a trailing option or repeated options are never tried.",
[RT],[("argument parser","RegressionTest::ParseAndRemoveArguments")])
p("C18","The first existing file along the search path is used",
"Searching a path list returns the first directory of the list, in order, joined with the name that is an existing regular file, and the empty path if there is none. The baseline document and the files of file measurements are looked up that way in the configured search path, directories given on the command line come before earlier ones, and the name itself is used if nothing is found.",
["inputs","configurations"],"all search lists and all states of the file system",
"Tests use one configured directory; not-found and later-entry cases are not covered.",
[PN,RT],[("search","PathName::SearchPathList"),("users","RegressionTest::BeginMeasurement, GetCompareMode, CompareMeasurement, PrependInFileSearchPath")])
p("C19","Failures of files and system calls are not ignored",
"An output or baseline file that cannot be opened when the run starts ends it with an error, as does output that could not be completely written. A file measurement whose file cannot be read completely never compares equal, a failed read of the baseline is an error, and no unchecked result of a system call is used.",
["fault_sequences"],"every failure of open, read, write, close, seek, getcwd, gethostname at any point",
"Tests never make a file operation fail.",
[RT,ME,FU],[("open/read/write checks","BeginMeasurement, EndMeasurement, ReadXMLInput, MeasurementFile::Load, GetCurrentDirectory, WriteXMLOutputStart")])
p("C20","Copying or assigning a measurement preserves it completely",
"A copy-constructed or assigned measurement of any class has the same name, escaping flag, type, content or file name, encoding and compression as its source, and is independent of it: changing or destroying one never affects the other. Assigning a measurement to itself leaves it unchanged, and changing the content discards any cached decoded form.",
["inputs","histories"],"every measurement class, every state of source and target",
"No test copies a measurement.",
[ME,MH],[("copy operations","copy constructors and assignment operators of all measurement classes"),("cache","DeleteContentAsData")])
p("C21","Decoded content and encoded content always agree",
"The decoded form of a measurement is its content itself without encoding and the base64-decoded content with base64 encoding, with the matching size. Setting the decoded form makes the content its encoding, so that reading either form back gives what was set; a file measurement loads exactly the bytes of its file.",
["inputs"],"all contents and encodings, all file contents and sizes",
"No test uses an encoding; file loading is exercised on three files.",
[ME],[("content conversion","UpdateContentAsData, GetContentAsData, GetContentAsDataSize, SetContentAsData"),("loading","MeasurementFile::Load")])
p("C22","All results go to the configured output",
"Everything a run writes about measurements (header, measurements, unmatched and difference reports, trailer) goes to the configured output file when one is set and to standard output otherwise, including reports written by comparison and difference helpers; the header and trailer are written in record mode only. Progress notes of the framework itself are not results.",
["inputs","configurations"],"every measurement type and comparison outcome, with and without an output file",
"Tests with an output file check a few text measurements only.",
[RT,MV,DV],[("output stream","RegressionTest::GetOutStream, DifferenceVisitor::GetOutStream")])
p("C23","Two images match only if geometry and pixels agree within tolerance",
"An image comparison reports equal exactly if both images could be read, their sizes, spacings and origins agree between test and baseline, and the number of pixels that differ by more than the intensity tolerance within the radius does not exceed the pixel tolerance, which is applied exactly once. The tolerances the user configured reach the comparison unswapped, and a comparison restricted to a region looks at that region only.",
["inputs"],"all pairs of images, tolerances and regions, and all read failures",
"The image tests use one size and compare one or two image pairs; none differs only in origin or sits at the tolerance limit.",
[CV,IR,IC,DV],[("image comparison","CompareVisitor::RegressionTestImage, Regression::CompareImage"),("tolerance hand-over","SetImageInsightTolerance, CreateCompareVisitor, CreateDifferenceVisitor")])
p("C24","The image difference statistics count every pixel exactly once",
"The image difference filter runs its per-thread work on every supported toolkit version, each thread touches only its own counters, which are sized for all threads and reset before each execution, and the totals are the sums over all threads. A pixel is counted as different exactly when the smallest difference to its neighbourhood exceeds the threshold, and only then does its magnitude enter the total.",
["schedules","inputs"],"all thread counts, region splits, images, thresholds and radii",
"Races and miscounts depend on splitting and scheduling; tests use one small image.",
[DI,"itktf/itktfDifferenceImageFilter.h"],[("threaded work and counters","BeforeThreadedGenerateData, ThreadedGenerateData, AfterThreadedGenerateData")])
p("C25","Composite measurements cover every component exactly once",
"Recording a size, index, region, point, vector, array or matrix records one scalar measurement per component, in order, each with its own component value and a name of its own that ends in the component's position, all with the tolerance flag given, and returns zero exactly when every component's recording returned zero.",
["inputs","programs"],"all dimensions, component types and values",
"The template helpers are exercised for one or two dimensions only.",
[IR],[("component loops","Regression::MeasurementInsightSize/Index/Region/Point/Vector/FixedArray/Matrix")])
p("C26","The pipe tool records all output and reports the child's status",
"The pipe tool passes its remaining arguments, in order and null-terminated, to the child process, records every piece of the child's output (standard output and error alike) in the order it arrives as one text measurement, and returns the child's exit value if the child exited and a non-zero value in every other case. The child process handle is waited for and released.",
["inputs","fault_sequences"],"all argument vectors, all chunkings of the child's output, all ways a child can end",
"No test runs the pipe tool.",
[PX],[("tool body","tfPipeToXMLRegressionTest::Test")])
p("C27","Generated file names are unique within a run and well defined",
"Each generated file name contains the program name, a hash depending on every command line argument, a sequence number that grows with every call so that no two calls in a run give the same name, and the requested extension; it is placed under the root path when one is given. The argument list is replaced, not extended, at the start of each run, and asking for a name before a run is not undefined behaviour.",
["inputs","histories"],"all argument vectors and call sequences",
"Tests generate one or two names.",
[IC,IR],[("file name generation","Regression::GenerateFileName, Regression::Main")])
p("C28","Path operations take a path apart and join it without loss",
"The tail of a path is the text after its last slash (the whole path if there is none); its directory name is the text before the last slash, '/' if that slash is the first character and '.' if there is none; the extension is the text after the last dot of the tail. Appending an absolute path, or appending to an empty path, gives that path; otherwise the result is the base without trailing slashes, one slash and the appended path. Splitting a colon separated list gives the pieces between the colons in order, empty ones included, and nothing for an empty list.",
["inputs"],"all strings",
"There is no test of the path functions beyond what finding files happens to use.",
[PN,FU],[("path functions","PathName::Tail, DirectoryName, Extension, Append, GetPathType; GetPathListFromColonSeparatedList, GetPathFromEnviroment")])
p("C29","A line diff labels and ranges every change correctly",
"In a text difference every reported change is labelled 'c' when it has both inserted and deleted lines, 'a' when only inserted and 'd' when only deleted lines; deleted lines are printed with '<' from the first text and inserted ones with '>' from the second, from the change's start for exactly as many lines as the range states. No position outside the texts' lines is read, lines are passed over as unchanged only when they are equal, and equal texts give no output.",
["inputs"],"all pairs of texts",
"Tests produce a couple of diffs.",
[DF],[("output","PrintEditList, PrintLines"),("line tables","BuildLines, GenerateEditList, Diff")])
p("C30","A diff is a minimal edit script that turns one text into the other",
"Applying the reported changes to the first text gives exactly the second, and no shorter list of line insertions and deletions does.",
["inputs"],"all pairs of texts","Tests produce a couple of diffs.",[DF],[("edit script search","FindEditMidPoint, GenerateEditList")])
p("C31","Numbers survive recording and reading back",
"A float or double that is recorded and read back from the document differs from the original by no more than its printed precision.",
["inputs"],"all values","Tests use a few values.",[ME],[("conversion","SetValue/GetValue")])
p("C32","Path predicates tell the truth about the file system",
"The file, directory and existence predicates of a path, at every call, ask the operating system about exactly that path (links followed) and are true only if it exists and is of that kind; the readable, writable and executable predicates are true exactly if the system grants that access, and for directories searching as well when asked for reading or writing. Listing a directory gives every entry the system reports, once and in order, and nothing for what is no directory; changing the current directory reports whether it worked.",
["inputs","configurations"],"every state of the file system and every path","Tests touch a few files.",[PN,FU],[("predicates","IsFile, IsDirectory, Exists, IsReadable, IsWritable, IsExecutable"),("listing","SearchDirectory"),("current directory","SetCurrentDirectory, GetCurrentDirectory")])
p("C33","The image comparison tool applies each option to the images after it",
"The command line image comparison tool takes its arguments in order: each of its three tolerance options takes exactly the value that follows it, sets that tolerance and no other, and holds for every image after it until it is given again; without an option the tolerance is zero. Every argument that does not begin with '-' is compared exactly once as an image, with the three tolerances in effect, each in its own place, under a name that no other image of the run has. A missing or unreadable value and an argument beginning with '-' that is no option make the tool fail; it succeeds only when all arguments have been used.",
["inputs"],"all argument vectors: any number, order and values of options and images","The tests call the tool's parts with a fixed image; its own argument loop is not run by them.",["itktf/itktfImageCompare.cxx",IC],[("argument loop","itktfImageCompareRegressionTest::Test")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for q in P:
        assert len(q["title"])<=80,q["id"]
        f.write(json.dumps(q,ensure_ascii=False)+"\n")
print(len(P))
