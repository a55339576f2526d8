import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
p('C01','File content does not depend on the access history',
 'For every well-formed archive, reading a file to its end yields exactly the bytes the archive stores for it, whichever files were opened, partly read, read to the end, closed or left open before, in whichever order. The same holds for a part that is read: it is always a prefix of the stored content, and it never contains bytes of another file. This holds for every supported method and chain of methods and for streams of one or many files.',
 ['histories','inputs','configurations'],'all sequences of opening files, reading any number of bytes and closing, over all arrangements of files in streams and all methods',
 'Tests extract each sample archive once, in order; out-of-order, partial and repeated access combine without bound.',
 ['reader.go','struct.go','internal/pool/pool.go'],[('reuse of the closest idle decoder','reader.go File.Open, internal/pool Get'),('skipping forward to the file','struct.go folderReadCloser.Seek'),('limit to the file size','reader.go fileReader.Read')],
 [('idle decoders','per stream: positions of decoders kept for reuse','internal/pool/pool.go pool.items'),('handle','bytes left of the open file','reader.go fileReader.n')],['File.Open','Read','Close'])
p('C02','Concurrent readers are independent',
 'When several goroutines open, read and close files of the same archive, or of several archives, at once, each using its own handle, every handle yields exactly the bytes it yields when used alone. No interleaving causes a data race, a deadlock or a panic, and no decoder serves two handles at the same time.',
 ['schedules','histories'],'all interleavings of operations on separate handles of one or several archives',
 'The tests run a few parallel extractions of fixed samples; they see only the schedules that happen to occur.',
 ['reader.go','internal/pool/pool.go','struct.go','internal/aes7z/key.go','register.go'],[('mutex of the idle decoder pool','internal/pool/pool.go'),('separate section readers per decoder','struct.go folderReader'),('key cache and recycled decoders shared by archives','internal/aes7z/key.go, internal/*/reader.go')],
 [('pool','idle decoders shared by goroutines','internal/pool/pool.go')],['File.Open','Read','Close','RegisterDecompressor'])
p('C03','Decoders are exclusive, closed once and bounded in number',
 'A decoder of a stream serves at most one open file at a time, is closed at most once and is never read after that. When a file is closed its decoder is closed too unless it is kept for a later file of the same stream, and at most as many idle decoders per stream are kept as there are CPUs, the least recently used being closed first. No decoder is kept that has reached the end of its stream, has failed, or would duplicate the position of a kept one, and none is kept for a stream holding a single file.',
 ['histories','fault_sequences'],'all sequences of opens, partial reads and closes over the files of a stream, including more partly read files than CPUs, and decoders that fail',
 'Nothing in the tests observes decoders; a leak or a double use does not change what the sample extractions return.',
 ['reader.go','internal/pool/pool.go','struct.go'],[('pool insertion and eviction','internal/pool/pool.go Put'),('close or keep decision','reader.go fileReader.Close')],
 [('idle decoders','least recently used list keyed by position','internal/pool/pool.go')],['registered Decompressor','Close of its decoder'])
p('C04','Reading files in order decodes each stream once',
 'Extracting the files of a stream one after the other in archive order, each to its end, creates one decoder for the stream and decodes it once. Opening a file continues an idle decoder if one stands at or before the start of the file, and of those the one closest to it, and only otherwise starts a new one. Files without content never touch a stream.',
 ['histories','configurations'],'all access histories over all arrangements of files in streams',
 'Results are the same with a fresh decoder for each file, only the work becomes quadratic; the tests do not measure it.',
 ['reader.go','internal/pool/pool.go'],[('closest preceding decoder','internal/pool/pool.go Get'),('pooling only where it helps','reader.go init')],
 [('idle decoders','positions of idle decoders','internal/pool/pool.go')],['registered Decompressor'])
p('C05','Storage faults never turn into wrong content',
 'If reading the underlying storage fails at any point, or returns fewer bytes than asked for, the operations that depend on it return an error that wraps the fault or go on correctly; no operation returns bytes that differ from the stored content, panics or hangs. A handle that returned an error keeps returning an error, and its decoder is never used again. Once the storage works again, files opened from then on yield their exact content, save that a decoder kept from before the fault may still report it, once.',
 ['fault_sequences','histories'],'a transient or permanent fault at every read of the storage, combined with all access histories and methods',
 'Tests only use intact files on a working file system.',
 ['reader.go','struct.go','internal/pool/pool.go','internal/bra/reader.go','internal/delta/reader.go','internal/bcj2/reader.go','internal/aes7z/reader.go'],[('error propagation and ReadError','reader.go fileReader.Read, File.Open'),('failed decoders are not kept','reader.go fileReader.Close')],
 [('handle','failed or not','reader.go fileReader.err')],['io.ReaderAt given to NewReader'])
p('C06','Truncated data is reported, and reading always ends',
 'If the archive ends before its data does, or a stream that is not encrypted decodes to fewer bytes than the archive declares, reading the affected file returns a prefix of its content followed by an error that is not io.EOF. Files that lie entirely before the missing part are still readable, and every read loop ends.',
 ['inputs','fault_sequences'],'every length an archive can be cut to, every packed stream cut at every length, for all methods',
 'Tests contain no truncated archives.',
 ['reader.go','struct.go','internal/*/reader.go'],[('early end of a stream','reader.go fileReader.Read'),('early end of the archive','struct.go packedReader'),('EOF handling of the filters','internal/bra, internal/bcj2, internal/delta, internal/aes7z')],
 [],['Read'])
p('C07','The listing maps files to the right data',
 'For every well-formed header the listing has the entries in archive order, and each file with data gets the stream, the range of its bytes, the size and the checksum that the format assigns to it, while entries without data get none. This holds for any mixture of empty files, directories, streams with no, one or several files, packed data starting anywhere, optional parts left out or present, checksums kept per stream or per file or missing, and plain or encoded headers.',
 ['inputs','configurations'],'all header shapes: numbers of streams, files per stream, empty entries between them, optional header parts',
 'The samples are what one archiver writes; most combinations of optional parts never occur in them.',
 ['types.go','struct.go','reader.go'],[('assignment of files to folders','struct.go FileFolderAndSize, reader.go init'),('sub stream sizes and digests','types.go readSubStreamsInfo'),('packed stream offsets','struct.go folderOffset')],
 [('file','stream index and offset within it','reader.go File')],['Reader.File','File.Open'])
p('C08','Metadata is reported as stored',
 'Every name, creation, access and modification time and attribute value stored in an archive is reported for the entry it belongs to, whether values are present for all, some or none of the entries and in whatever order the properties are stored. Times are exact to 100 ns over the whole range of the format, names keep every valid UTF-16 character, and the file mode follows the POSIX bits if stored and otherwise the DOS attributes, with entries that have neither data nor an empty-file mark being directories.',
 ['inputs'],'all entry sets with any subset of defined values, all attribute values, all times',
 'The tests look at contents and never compare times, attributes or modes.',
 ['types.go','struct.go','reader.go'],[('per entry properties','types.go readFilesInfo, readTimes, readNames, readAttributes'),('mode mapping','struct.go FileHeader.Mode')],
 [],['FileHeader','FileInfo','Mode'])
p('C09','Malformed headers are rejected without harm',
 'For any bytes in place of the header, correctly checksummed or not, opening the archive and then opening and reading all its files returns values or errors. It never panics, never fails to end, and the memory allocated to read the header stays in proportion to the size of the (decoded) header.',
 ['inputs'],'all sequences of header elements with all relations between counts, sizes, indices and flags, and all truncations of them',
 'The fuzz corpus in the tests has a handful of inputs, and random bytes do not pass the checksums.',
 ['types.go','struct.go','reader.go'],[('bounds and consistency checks','types.go'),('graph checks','struct.go folderReader')],
 [],['NewReader','File.Open','Read'])
p('C10','Header damage is always detected',
 'An archive is only opened if its start header and its header match their checksums, including the checksum of a compressed header once decoded; any change to these bytes makes opening fail, and so does data between the end of the header and its declared end. Bytes outside of these regions, such as trailing data after the archive, do not influence whether it opens or what is listed.',
 ['inputs'],'every position and value of changed bytes in the start header, the header and the packed header, and any trailing data',
 'Tests contain no damaged archive.',
 ['reader.go','internal/util/checksum.go'],[('start header checksum','reader.go init'),('header checksum','reader.go init'),('encoded header checksum','reader.go init')],
 [],['NewReader'])
p('C11','Self-extracting archives are found behind any prefix',
 'An archive that starts anywhere up to 1 MiB into a file is found and behaves exactly like the archive alone, whatever the bytes before it are, including fragments of the signature, and complete signatures followed by data whose checksum does not match as long as the file does not itself start with one. A file without a valid signature in that range is rejected with an error.',
 ['inputs'],'all prefix lengths and contents, decoy signatures at all distances from the block boundaries of the search',
 'The one sample has one prefix.',
 ['reader.go'],[('signature search','reader.go findSignature'),('choice among candidates','reader.go init')],
 [],['NewReader','OpenReader'])
p('C12','Split archives read the same as whole ones',
 'However an archive is cut into consecutive volumes, opening the first volume opens all of them in order and presents exactly the entries and contents of the whole archive, and a file whose name does not end in .001 is opened alone. If a volume is missing, unreadable or cut short opening or reading fails with an error. Every failed open and every close releases all the files that were opened.',
 ['inputs','fault_sequences','configurations'],'all ways to cut an archive into volumes, all volumes that can fail to open, and ends of archives at volume boundaries',
 'One sample with six equal volumes.',
 ['reader.go'],[('volume enumeration','reader.go openReader'),('closing on failure','reader.go openReader, OpenReaderWithPassword')],
 [('volumes','open files of the archive','reader.go ReadCloser.f')],['OpenReader','Volumes','Close','open file descriptors'])
p('C13','The fs.FS view is consistent for every set of names',
 'For every set of entry names, including names with backslashes, absolute names, dot elements and files that double as directories, the archive as a file system ends every walk, lists in each directory exactly the elements of the cleaned names once and in sorted order, with missing parents added as directories, opens exactly the paths that entries and their parents have and rejects every other path with the proper error. What listing a directory says about an element agrees with opening it and asking it. A name claimed by several entries, or by a file and a directory, opens the first of them, and a listing that would contain it is an error rather than a guess.',
 ['inputs'],'all sets of names over an alphabet with separators, dots and repeats, and all paths asked for',
 'TestFS checks one well-behaved sample.',
 ['reader.go','struct.go'],[('index of cleaned names','reader.go initFileList, toValidName'),('lookup','reader.go openLookup, openReadDir')],
 [('index','sorted entries with directories added','reader.go fileList')],['Reader.Open','fs.WalkDir','fs.ReadDir'])
p('C14','Directory handles list every entry exactly once',
 'Reading a directory handle in batches of any sizes returns the entries of the directory each exactly once and in order, a positive batch size gives at most that many and io.EOF only once nothing is left, and a size of zero or less returns everything that is left with no error. Handles of the same directory do not influence each other.',
 ['histories'],'all sequences of batch sizes on any number of handles of directories of any size',
 'Only a few batch patterns are tried by the standard library helper the tests call.',
 ['reader.go'],[('cursor','reader.go openDir.ReadDir')],
 [('cursor','entries already returned','reader.go openDir.offset')],['fs.ReadDirFile'])
p('C15','Decryption depends only on the archive and the password',
 'What an encrypted file decrypts to depends only on the archive and the password it was opened with, never on what other archives, passwords, salts or cost parameters were used before or at the same time, nor on how often the file was opened. It equals what the format defines for every salt and IV length, password and cost parameter, including the one that skips hashing, up to the documented limit above which opening fails.',
 ['histories','inputs'],'all sequences of decryptions with different parameters, more than the key cache holds, with all lengths of salts and IVs',
 'Tests decrypt two or three samples once each with 7-Zip\'s default parameters.',
 ['internal/aes7z/key.go','internal/aes7z/reader.go'],[('key cache keyed by all parameters','internal/aes7z/key.go calculateKey'),('property parsing','internal/aes7z/reader.go NewReader')],
 [('key cache','recent keys by password, salt and cost','internal/aes7z/key.go')],['NewReaderWithPassword','File.Open'])
p('C16','Read errors say whether encryption is involved',
 'Errors that arise from opening or reading the contents of a file, or a compressed header, are read errors that wrap the underlying cause. Their encryption hint is set if and only if the stream that failed passes through a decryption step that had been set up, so that a wrong password is never reported as plain corruption and plain corruption never as a wrong password.',
 ['inputs','fault_sequences'],'all chains of methods with and without encryption at any place, failing at any step of being set up, skipped over or read',
 'Tests check the hint for two samples with a wrong password.',
 ['reader.go','struct.go'],[('hint','struct.go folderReader, reader.go File.Open and fileReader.Read')],
 [],['ReadError'])
p('C17','Coders are wired as the archive describes',
 'For every acyclic arrangement of coders with any numbers of input streams listed in the order they depend on each other, each coder is given its own properties, its own output size and its inputs in order, every input being the packed stream or the coder output the archive binds it to, and the file data comes from the one output that is bound to nothing. Arrangements that are cyclic, incomplete or that share or leave over streams are rejected with an error.',
 ['inputs'],'all small coder graphs: numbers of coders, inputs per coder, bindings and assignments of packed streams, valid and not',
 'The samples contain chains and one BCJ2 graph.',
 ['struct.go','types.go'],[('graph construction','struct.go folderReader'),('packed stream order','types.go readFolder')],
 [],['registered Decompressor'])
p('C18','Method registration takes effect exactly for its id',
 'A registered decompressor is used for exactly the method id it was registered for, by every stream opened from then on, and the latest registration of an id wins; streams already open keep theirs. Ids of any length, including prefixes and extensions of other ids, are distinct, an id nothing is registered for gives an error when the file is opened and not before, and built-in methods can be replaced.',
 ['histories','schedules','inputs'],'all sequences of registrations and opens, concurrent ones included, over ids that are prefixes of each other',
 'No test registers a method.',
 ['register.go','struct.go'],[('registry','register.go RegisterDecompressor, decompressor')],
 [('registry','constructor per id','register.go decompressors')],['RegisterDecompressor','File.Open'])
p('C19','Decoding does not depend on how data is chunked',
 'The bytes a file decodes to do not depend on the sizes of the buffers the caller reads with, nor on how many bytes each read of the storage or of an earlier decoder in the chain delivers, nor on whether the end of the data is reported with the last bytes or after them. A read never reports more bytes than fit and never touches memory beyond the length of the buffer.',
 ['inputs','schedules'],'all sequences of read sizes on both sides of every decoder, around block and look-ahead sizes',
 'Tests read with one buffer size, plus one reader that returns single bytes, from files that deliver full blocks.',
 ['internal/bra/reader.go','internal/delta/reader.go','internal/bcj2/reader.go','internal/aes7z/reader.go','reader.go','struct.go'],[('buffering','internal/bra/reader.go Read, internal/bcj2/reader.go Read, internal/aes7z/reader.go Read'),('history across reads','internal/delta/reader.go Read')],
 [('buffered bytes','decoded and undecoded bytes held by a filter','internal/bra/reader.go readCloser')],['Read','registered Decompressor'])
p('C20','Recycled decoders carry nothing over',
 'What a stream decodes to is not affected by streams of the same or of other archives that were decoded, abandoned half way, failed or closed before it in the same process, in any order and concurrently. This includes methods whose decoders are recycled between streams.',
 ['histories','schedules'],'all sequences of complete, partial, failed and closed decodings across archives and methods',
 'Tests decode each sample once or in parallel with itself, never after a failure.',
 ['internal/deflate/reader.go','internal/zstd/reader.go','internal/brotli/reader.go','internal/lz4/reader.go','internal/lzma/reader.go','internal/lzma2/reader.go'],[('reset before reuse','NewReader of each package'),('return to the recycler on close','Close of each package')],
 [('recycler','decoders waiting for reuse','sync.Pool of each package')],['NewReader','File.Open'])
p('C21','Open files follow the reader protocol',
 'A handle returns exactly the declared number of bytes of the file, then io.EOF on every further read; reading into an empty buffer returns nothing and changes nothing; closing twice is harmless; and reading a file that has bytes left after closing it returns an error. A handle opened through either interface can be asked for its information, and neither depends on what other handles do.',
 ['histories'],'all sequences of reads of any size, including zero, and closes on handles of files of any size, including none',
 'Tests read each file to its end once and close it once.',
 ['reader.go'],[('handle','reader.go fileReader')],
 [('handle','bytes left, closed or not','reader.go fileReader')],['File.Open','Reader.Open'])
p('C22','Filters invert their encoders',
 'For every sequence of bytes the x86, ARM, ARM64, PowerPC, SPARC, BCJ2 and delta decoders return what the corresponding 7-Zip encoder was given, at every position of branch instructions relative to each other and to the end of the data, for positions beyond 4 GiB of address space wrapping as 7-Zip does, and for every delta distance from 1 to 256.',
 ['inputs'],'all byte sequences, in particular all overlaps of branch opcodes and their operands and tails shorter than an instruction',
 'One sample per filter whose few branch patterns do not cover the overlap rules.',
 ['internal/bra/bcj.go','internal/bra/arm.go','internal/bra/arm64.go','internal/bra/ppc.go','internal/bra/sparc.go','internal/bcj2/reader.go','internal/delta/reader.go'],[('conversion','Convert of each filter'),('range decoder','internal/bcj2/reader.go decode')],
 [('filter state','instruction pointer and opcode history','internal/bra/bcj.go')],['Read'])
p('C23','General-purpose decoders implement their formats',
 'The LZMA, LZMA2, PPMd, Deflate, bzip2, Zstandard, Brotli and LZ4 decoders accept every stream the formats allow and return the bytes the formats define.',
 ['inputs'],'all streams of the eight formats',
 'One sample per format.',
 ['internal/lzma/reader.go','internal/ppmd/reader.go','internal/zstd/reader.go'],[('third-party decoders','go.mod')],
 [],['Read'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
