DET = 'include/boost/url/detail/'
IMP = 'include/boost/url/impl/'
PARSE = [DET + 'parse.hpp', DET + 'char_type.hpp', IMP + 'url_view.ipp', 'include/boost/url/url_view.hpp']

prop('P01', 'The parser accepts exactly the URI-references of RFC 3986',
     'Constructing a URL view from a string succeeds if and only if the string matches the URI-reference grammar of RFC 3986 '
     '(URI or relative reference; IP literals are IPv6 addresses, the IPvFuture form is not supported). '
     'Every other string is rejected with an exception.',
     ['inputs'], 'every byte string of every length',
     'the tests try a few hundred strings; membership is a statement about all of them, including every percent escape, port, IPv6 and dot form',
     PARSE, [('URL grammar', DET + 'parse.hpp'), ('character tables', DET + 'char_type.hpp'), ('entry point', IMP + 'url_view.ipp')],
     'success or exception of the constructor')
check('P01', AI + ' (minimal DFA of RFC 3986 URI-reference)', 'proof',
      'fixpoint over all strings; every exit of the parser is compared with the automaton state')

prop('P02', 'Observers return exactly the components the grammar assigns',
     'For every string that parses, the scheme, authority, user, password, host, port, path, query and fragment (with and without their delimiters), '
     'the kind of host, the presence of authority and user info, and the numbers of path segments and query parameters reported by the URL view '
     'are exactly those of the RFC 3986 decomposition of the string. A query counts one parameter, plus one for every ampersand that ends a value.',
     ['inputs'], 'every valid URL string of every length',
     'tests compare components of a handful of URLs; off-by-one boundaries appear only for particular combinations of present and empty parts',
     PARSE + [DET + 'parts.hpp'], [('part offsets', DET + 'parts.hpp'), ('boundary recording', DET + 'parse.hpp'), ('observers', IMP + 'url_view.ipp')],
     'return values of the observers')
check('P02', AI + ' annotated with component registers', 'proof',
      'each observer result is proved equal to an affine expression over the lengths the grammar run counted, at every exit, for each of 26 slices covering the language')

prop('P05', 'Parsing and observing never touch memory outside the string',
     'Parsing any string, valid or not, and calling any observer of the resulting view, reads only bytes of that string, reads no indeterminate memory, '
     'never fails an internal assertion and never terminates the program.',
     ['inputs'], 'every byte string of every length, valid or not',
     'a one-byte overread shows only for strings ending at particular points (after a percent sign, inside an IPv6 literal) and is silent without a sanitizer',
     PARSE, [('cursor arithmetic', DET + 'parse.hpp'), ('escape validation', DET + 'char_type.hpp')], 'every load of the constructor and observers')
check('P05', AI + ', memory and assertion obligations', 'proof',
      'every load, store and assertion of constructor and observers is an obligation in the same fixpoint')

EDIT = [IMP + 'url_base.ipp', 'include/boost/url/url_base.hpp', DET + 'storage.hpp', DET + 'parts.hpp', DET + 'char_type.hpp', DET + 'parse.hpp']
SETTERS = ('set_scheme, set_encoded_userinfo, set_userinfo_part, set_encoded_user, set_encoded_password, set_password_part, set_encoded_host, '
           'set_port, set_port_part, set_encoded_path, set_encoded_query, set_query_part, set_encoded_fragment, set_fragment_part')
prop('P06', 'Setters accept exactly the strings their component allows',
     'Applied to any URL obtained by parsing, each string setter (' + SETTERS + ') returns normally if and only if its argument matches the grammar of that '
     'component in this context, and throws otherwise. Contexts matter only for paths: with an authority the path is empty or absolute; without one it does not start with "//"; '
     'with neither scheme nor authority its first segment has no colon. An encoded password must not start with a colon. '
     'The empty string is accepted by every setter. Failed allocation may also throw.',
     ['inputs', 'histories'], 'every parsed URL and every argument string',
     'tests try a few arguments per setter; a wrong character class or a context rule dropped for one combination of present parts is not sampled',
     EDIT, [('setters', IMP + 'url_base.ipp'), ('validation', DET + 'char_type.hpp')], 'normal or exceptional return of the setter')
EAI = 'abstract interpretation of the LLVM IR of parse, setter, observers; URL and argument as words of annotated automata, lengths symbolic'
check('P06', EAI + '; acceptance compared with the argument automaton at every exit', 'proof',
      'quick: 6 of 26 URL slices, IP literals as host arguments in full only for URLs without authority and scheme; thorough: all slices and arguments')

prop('P07', 'A setter changes exactly its component and nothing else',
     'When a string setter (' + SETTERS + ') returns normally, the URL text is the old text with that component (and its delimiter) replaced by the argument, '
     'removed when the argument is empty, and every observer, including counts of segments and parameters, the kind of host and the presence of authority and user info, '
     'reports the components of that text; all other components are unchanged. '
     'Adding user info, host or port adds "//" where no authority was; removing the last of user info, host and port (by setting the user info, the host or the port to empty) removes it.',
     ['inputs', 'histories'], 'every parsed URL, with and without spare capacity, and every accepted argument',
     'the effect depends on which neighbouring parts are present or empty and on whether the storage is grown, shrunk or reallocated; tests visit a few of the combinations',
     EDIT, [('part table', DET + 'parts.hpp'), ('resize and setters', IMP + 'url_base.ipp'), ('storage', DET + 'storage.hpp')], 'text and observers after the setter')
check('P07', EAI + '; resulting text compared cell by cell with the expected splice', 'proof',
      'quick: 16 of 26 URL slices (4 also with spare capacity); thorough: all slices, with and without spare capacity, unrestricted host arguments')

prop('P08', 'A setter that throws leaves the URL unchanged',
     'When a string setter (' + SETTERS + ') throws, because its argument is invalid or because any allocation it makes fails, '
     'the text and every observer of the URL are what they were before the call.',
     ['inputs', 'fault_sequences'], 'every parsed URL, every argument and every allocation that can fail',
     'tests never make an allocation fail and look at a few invalid arguments only',
     EDIT, [('setters', IMP + 'url_base.ipp'), ('growth', DET + 'storage.hpp')], 'text and observers after the exception')
check('P08', EAI + ', every allocation also failing; state at every exceptional exit compared with the state before', 'proof',
      'quick: 8 of 26 URL slices; thorough: all')

prop('P09', 'Modifications stay inside their storage and keep the terminator',
     'Parsing into a URL, applying any string setter with any argument, and observing never reads or writes outside the storage and the argument, never reads indeterminate or released bytes, '
     'releases each block once with the size it was allocated with, never fails an assertion, and afterwards data() is null terminated at size().',
     ['inputs', 'histories', 'fault_sequences'], 'every parsed URL, with and without spare capacity, every argument, every failing allocation',
     'off-by-one block moves corrupt one byte past the end for particular lengths only, silently',
     EDIT, [('storage', DET + 'storage.hpp'), ('resize', IMP + 'url_base.ipp')], 'every load, store, block copy, allocation and release')
check('P09', EAI + ', memory, lifetime and assertion obligations', 'proof',
      'quick: 16 of 26 URL slices (4 also with spare capacity); thorough: all')

WAI = 'abstract interpretation of the LLVM IR over bounded class words (byte values symbolic, no joins)'
VIEWS = [IMP + 'url_view.ipp', IMP + 'url_view.hpp', IMP + 'url_base.ipp', IMP + 'url_base.hpp', 'include/boost/url/url_view.hpp', 'include/boost/url/url_base.hpp']
prop('P10', 'Iterating the path segments visits each segment once, in order',
     'For every URL, view or modifiable, iterating segments() from begin() to end() yields exactly the segments of the path in order (the text between slashes; a leading slash opens the first segment; '
     'an empty path has none), decrementing from end() to begin() yields them in reverse, post-increment and post-decrement return the old position, '
     'and size() and empty() agree with the number of segments. No iteration reads outside the path or fails an assertion.',
     ['inputs'], 'every valid URL',
     'iterator arithmetic goes wrong only for particular shapes: empty segments, rootless paths, a query or fragment that contains slashes',
     VIEWS, [('view iterators', IMP + 'url_view.ipp'), ('url iterators', IMP + 'url_base.ipp')], 'values of *it, size(), empty()')
check('P10', WAI, 'other', 'bounded: paths of up to 5 (thorough: 7) slashes and characters, every arrangement, in several contexts; every byte of each class at once')

prop('P11', 'Iterating and looking up query parameters follows the query text',
     'For every URL, view or modifiable, iterating params() yields the parameters of the query in order, forward and (by decrement) backward: a key runs to the next equals sign or the end of the query, '
     'its value to the next ampersand or the end; size() and empty() agree; without a query there are none. '
     'contains, count and find compare the percent-decoded key with the argument: contains tells whether a parameter has that key, count how many have, '
     'find returns the first of them or end(). No iteration or lookup reads outside the query or the argument or fails an assertion.',
     ['inputs'], 'every valid URL and every key',
     'tests use a few well-formed queries; keys without values, empty keys and values, escapes and text after the query are not sampled',
     VIEWS + [DET + 'char_type.hpp'], [('view iterators', IMP + 'url_view.ipp'), ('url iterators', IMP + 'url_base.ipp'), ('key comparison', DET + 'char_type.hpp')],
     'values of *it, size(), contains, count, find')
check('P11', WAI, 'other', 'bounded: queries of up to 4 (thorough: 7) delimiters and characters, every arrangement, in several contexts; lookups with one side symbolic')

prop('P14', 'Scheme names and scheme ids correspond exactly, ignoring case',
     'string_to_scheme maps a string to the id of ftp, file, http, https, ws or wss if and only if it is that name in any combination of upper and lower case letters, whatever the program locale, '
     'and to unknown otherwise; is_special is true for exactly these; to_string of each of these ids is its name; the ids differ.',
     ['inputs'], 'every string of every length',
     'tests try each name in lower case and few others; near misses of any length are not sampled',
     [IMP + 'scheme.ipp', 'include/boost/url/scheme.hpp'], [('matching', IMP + 'scheme.ipp')], 'return values')
check('P14', 'abstract interpretation of the LLVM IR in product with the automaton of the names', 'proof', 'every string, unbounded')

prop('P12', 'Inserting, erasing and replacing segments edits exactly the list',
     'On a modifiable URL, segments().insert and insert_encoded place one segment before the given position, erase removes the given segment or range, replace and replace_encoded exchange one segment: '
     'afterwards the list of segments is the old list with that edit, size() agrees, the path text is the list joined by slashes (an absolute path stays absolute unless emptied), '
     'every other component and observer is unchanged, data() is null terminated, and the returned iterator stands at the element after the inserted or replaced one, or at the element after the erased ones. '
     'insert and replace percent-encode the bytes a segment cannot hold; insert_encoded and replace_encoded throw exactly for strings that are not valid encoded segments. '
     'After any exception, including failed allocation, the URL is unchanged. No operation touches memory outside the storage or fails an assertion.',
     ['inputs', 'histories', 'fault_sequences'], 'every parsed URL, every valid position or range, every segment string',
     'the edits depend on the position (front, middle, end), on whether the path is absolute, rootless or empty and on what follows it; tests edit two or three paths',
     EDIT, [('segment edits', IMP + 'url_base.ipp'), ('iterator', IMP + 'url_base.ipp')], 'text, observers, segment list and returned iterator')
check('P12', WAI, 'other', 'bounded: paths of up to 4 (thorough: 5) slashes and characters in several contexts, every position and range, new segments of up to 3 arbitrary bytes, failing allocations, spare capacity, empty URL')

prop('P13', 'Plain setters encode and decoding observers decode, as inverses',
     'set_user, set_password, set_host, set_query and set_fragment accept every non-empty string, store each byte the component may hold as it is and every other byte as a percent sign and two upper-case hexadecimal digits '
     '(an IPv4 address or bracketed IPv6 address given to set_host is stored as it is), change nothing else, and the decoding observer then returns the original string. '
     'For every URL, view or modifiable, user(), password(), host(), query(), fragment(), the string() of a segment and the key() and value() of a parameter are the encoded text with each escape replaced by the byte it stands for; '
     'params()[key] is the decoded value of the first parameter with that key or the empty string, and at(key) throws exactly when there is none.',
     ['inputs'], 'every URL, every byte string given to a plain setter, every escape',
     'tests encode a few strings; a wrong table entry or a signed shift shows only for particular byte values',
     EDIT + VIEWS[:2], [('encoding tables, encode, decode', DET + 'char_type.hpp'), ('plain setters', IMP + 'url_base.ipp')], 'text after plain setters; results of decoding observers')
check('P13', WAI, 'other', 'bounded: plain arguments of up to 3 (thorough: 4) arbitrary bytes on 17 URL shapes; every escape value in every component')

prop('P15', 'Replacing the URL, origin, authority or port number takes effect exactly',
     'set_encoded_url accepts exactly URI-references and makes the text that string; set_encoded_authority accepts exactly RFC 3986 authorities and replaces (or, if empty, removes) the authority; '
     'set_encoded_origin accepts exactly a scheme, a colon and a hierarchical part, and replaces scheme and authority by those (ignoring a path), or removes both if empty; '
     'set_port with a number stores its decimal digits without leading zeros, adding an authority if there is none; normalize and normalize_scheme turn the scheme to lower case. '
     'Nothing else in the text changes, the observers agree with the text (where it is unambiguous), data() is null terminated, and after an exception the URL is unchanged.',
     ['inputs'], 'every parsed or empty URL and every argument',
     'tests call these with one or two arguments; wrong part boundaries show only for particular combinations of present parts',
     EDIT, [('set_encoded_url, set_encoded_origin, set_encoded_authority, set_port, normalize', IMP + 'url_base.ipp'), ('parse_origin, parse_authority', DET + 'parse.hpp'), ('port_string', DET + 'char_type.hpp')],
     'text and observers after the call')
check('P15', WAI + '; acceptance compared with the argument automaton', 'other', 'bounded: 15 URL shapes and the empty URL, arguments of up to 2 arbitrary bytes in 10 to 20 contexts, about 40 port numbers')

prop('P16', 'After modifications the text parses back to the same components',
     'After any sequence of modifications of a URL, parsing its text succeeds and gives the scheme, authority, user info, host, port, path, query, fragment, host type and numbers of segments and parameters that the URL itself reports; '
     'data() stays null terminated and no operation faults. (Known, listed: the library adds or removes an authority or a scheme without adjusting a path that then reads differently.)',
     ['inputs', 'histories'], 'every URL and every sequence of modifications',
     'an inconsistency between text and part table shows only for a particular second operation after a particular first one',
     EDIT + PARSE[:1], [('part table', DET + 'parts.hpp'), ('all setters and segment edits', IMP + 'url_base.ipp')], 'observers of the URL against a url_view of its text')
check('P16', WAI, 'other', 'bounded: one modification (30 operations, fixed arguments) on 38 URL shapes, two modifications on 5 shapes (thorough: 38)')

prop('P17', 'Assigning a URL copies it',
     'After a = b for two URLs (also a = a), a has the text, the null terminator and the observers b had, b is unchanged, and changing one of them later, or destroying it, leaves the other alone. '
     'If the allocation fails, both URLs are unchanged. No step touches memory outside the storage of the two or fails an assertion.',
     ['inputs', 'histories', 'fault_sequences'], 'every two URLs, whatever capacity the target has, every failing allocation',
     'no test assigns a URL',
     ['include/boost/url/basic_url.hpp', IMP + 'url_base.ipp', DET + 'storage.hpp'], [('operator=', 'include/boost/url/basic_url.hpp')], 'text and observers of both URLs after the assignment')
check('P17', WAI, 'other', 'bounded: pairs of URL shapes with and without every component, empty source and target, spare capacity, failing allocation, later changes of either URL')

prop('P18', 'A static pool hands out aligned, disjoint blocks inside its buffer',
     'Every block that the allocator of a static_pool returns lies inside the buffer of the pool, is aligned for its type and overlaps no block that is still allocated, whatever was released in between; '
     'if the block does not fit, including when its size in bytes is not representable, allocate throws and later requests that fit still succeed; a request that fits never throws.',
     ['inputs', 'histories'], 'every buffer address and size, every sequence of requests',
     'the tests allocate a few strings from a pool that is much larger than needed',
     ['include/boost/url/static_pool.hpp'], [('allocate', 'include/boost/url/static_pool.hpp')], 'pointers returned and exceptions thrown by allocate')
check('P18', 'abstract interpretation of the LLVM IR with affine pointer arithmetic, any buffer and requests, and over bounded constant requests', 'other',
      'three requests of mixed types: containment, alignment and disjointness shown for any buffer address, size and requests; refusals and overflow on bounded sizes')

prop('P19', 'Looking at a URL changes nothing',
     'Observers, iteration over segments and parameters, and lookups on a const URL or URL view write to nothing that existed before the call: not to the URL object, its text, '
     'the argument strings or any static variable; so any number of threads may read the same URL. '
     'On a valid URL they do not throw, except that at() with a missing key does, and that those returning an owning string throw if its allocation fails.',
     ['inputs', 'schedules'], 'every URL, every observer, every interleaving of readers',
     'a cached value or a buffer shared between calls gives right results in every single-threaded test',
     ['include/boost/url/url_view.hpp', IMP + 'url_view.ipp', 'include/boost/url/url_base.hpp', IMP + 'url_view.hpp'],
     [('observers', IMP + 'url_view.ipp'), ('iterators and lookups', IMP + 'url_view.ipp')], 'stores executed by const member functions')
check('P19', 'abstract interpretation of the LLVM IR; effect analysis: no store reaches memory that existed before the call', 'other',
      'bounded: URL shapes with symbolic character classes and constant long words, all observers, iteration forwards and backwards, lookups')
