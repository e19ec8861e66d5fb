import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':qtext},'why_tests_cant':why,'anchors':a})
B='include/boost/url/'
parse=B+'detail/parse.hpp'; ct=B+'detail/char_type.hpp'; parts=B+'detail/parts.hpp'; st=B+'detail/storage.hpp'
ub=B+'impl/url_base.ipp'; ubh=B+'url_base.hpp'; ubi=B+'impl/url_base.hpp'; uv=B+'impl/url_view.ipp'; uvh=B+'url_view.hpp'; uvi=B+'impl/url_view.hpp'
p('C01','A text is accepted as a URL exactly when RFC 3986 allows it',
 'Constructing a view or a container from a text succeeds if and only if the text is a URI-reference by RFC 3986 (an absolute URI with or without authority, a network-path, absolute-path or relative reference, or the empty text), including its rules for schemes, percent-encoding (either hex case), userinfo, IPv6 literals with embedded IPv4, ports, path first segments, query and fragment. Every other text is refused with the documented exception. (IP-literals of the IPvFuture form are not supported and are refused.)',
 ['inputs'],'every byte string','The tests list some hundred good and bad texts; the grammar is a language over all byte strings and its errors sit at particular characters in particular positions.',
 [parse,ct,parts,uv,ub],[('match_* grammar functions',parse),('character tables',ct),('url_view(string_view)',uv),('url_base(storage, string_view)',ub)])
p('C02','Every accepted text is split into the components RFC 3986 defines',
 'After a text was accepted, the scheme, authority, userinfo, user, password, host, host-and-port, port, path, query, fragment and origin reported in encoded form are exactly the substrings the generic syntax assigns to them, with absent and empty components distinguished by the variants that include their delimiter, and presence queries agreeing. Put together with their delimiters the components give the text back. Views and containers agree.',
 ['inputs'],'every accepted text','The tests compare the parts of chosen URLs; delimiters recurring inside other components (a colon in a path, a question mark in a fragment, an at-sign in a query) combine in ways they do not list.',
 [parse,parts,uv,ub],[('parts offsets',parts),('url_view observers',uv),('url_base observers',ub)],[('parts.offset','where each component starts',parts)])
p('C03','Reading any text is memory safe, ends, and hands out only views inside it',
 'For every byte string, valid or not, construction either succeeds or throws the documented exception: it never reads outside the text, aborts or hangs. On the result, and on default-constructed objects, every observer and iteration returns normally and each returned view lies inside the text that was given (or the container\'s own text).',
 ['inputs'],'every byte string, without terminator, valid or not','A read one past the end, or an assertion that fails, needs a text ending at just the wrong place; tests use null-terminated literals, where such reads go unnoticed.',
 [parse,parts,uv,uvi,uvh,ub],[('bounds tests before each access',parse),('offset arithmetic',parts),('iterators',uv)])
p('C04','The host is classified as IPv4, IPv6, name or none exactly by the grammar',
 'The reported host type is none exactly if there is no or an empty host, IPv6 exactly if the host is a bracketed IPv6 address, IPv4 exactly if it is a dotted quad of decimal octets 0 to 255 without leading zeros, and name otherwise. This holds for parsed texts and after setting the host or authority.',
 ['inputs'],'every host text','The tests classify a few hosts; octet limits, elision placement and near-addresses such as 256.0.0.1 or 1.2.3.4.5 form a large set.',
 [parse,parts,ub],[('match_ipv4, match_ipv6, match_host',parse),('set_host, set_encoded_host',ub)],[('parts.host','kind of host',parts)])
p('C05','Decoded observers undo percent-encoding exactly',
 'The plain user, password, host, query, fragment, path segments and parameter keys and values equal the encoded form with every %HH triplet, in either hex case, replaced by that byte and every other byte unchanged. Any octet value including zero comes through, and the result has exactly the decoded length.',
 ['inputs'],'every accepted text and every component of it','256 octets in two cases at any position of eight components; tests decode a few.',
 [uvh,ubh,uv,ct,B+'detail/parse.hpp'],[('detail::decode',ct),('plain observers',uvh),('plain observers of containers',ubh)])
p('C06','Plain setters store any bytes by minimal percent-encoding, read back unchanged',
 'Setting user, password, host, query or fragment from plain bytes always produces a valid URL whose decoded component equals those bytes, for any bytes at all. Only characters the component may not contain literally are encoded, as upper-case triplets; all others are stored as they are.',
 ['inputs','histories'],'every byte string as argument, on every container','Tests set words and a few reserved characters; the property is about each of 256 bytes in each of five components in any surrounding URL.',
 [ub,ct],[('set_user, set_password, set_host, set_query, set_fragment',ub),('encode, pct tables',ct)])
p('C07','Encoded setters accept exactly the valid texts and store them verbatim',
 'Setting a component in its encoded form (whole URL, origin, scheme, authority, userinfo, user, password, host, port, path, query, fragment, and the variants with delimiter) succeeds if and only if the argument is valid for that component by RFC 3986 (an encoded password may not begin with a colon) and fits the rest of the URL, and then the component reads back as exactly that text. Otherwise it throws the documented exception.',
 ['inputs','histories'],'every argument text, on every container','Tests try a handful of arguments on a handful of URLs; each setter has its own grammar, delimiter and empty-argument rules.',
 [ub,parse,ct],[('set_encoded_* and set_*_part',ub),('grammar functions',parse)])
p('C08','Setting one component leaves all other components as they were',
 'After a successful change of one component every other component reads exactly as before, in encoded form, including whether it is present; the path keeps meaning a path when scheme or authority come and go. Adding a user, password or port to a URL without authority gives it one; removing the last part of an authority may remove the authority.',
 ['inputs','histories'],'every valid URL, every argument, every setter','Requires checking every other component after each setter for URLs where any subset of components is absent, empty or present; tests compare chosen pairs.',
 [ub,parts],[('resize_impl moving the tail',ub),('parts::resize, split',parts)],[('parts.offset','component positions',parts)])
p('C09','After any operation a container equals a fresh reading of its own text',
 'After every operation, successful or throwing, the text of a container is a valid URL, and every observer (components, presence, host type, segment and parameter counts and sequences) gives what a container freshly built from that text gives. So no history of operations can leave bookkeeping that disagrees with the text.',
 ['inputs','histories'],'every operation with every argument on every valid URL','The cached positions and counts are updated by each setter separately; tests seldom look at counts after a change.',
 [ub,parts,ubi],[('setters updating parts, nseg, nparam, host',ub),('parts',parts)],[('parts','offsets, counts, host type',parts)])
p('C10','A throwing operation leaves the URL untouched',
 'If a modifying operation throws, because its argument is invalid or because storage cannot be obtained, the container is exactly as before: same text, same components, still usable. This includes edits through the segment container.',
 ['inputs','fault_sequences'],'every invalid argument and every point of allocation failure','Tests check that operations throw, not what is left; none makes an allocation fail.',
 [ub,st],[('validate before modifying',ub),('storage.resize',st)])
p('C11','Container text stays terminated, sized and within its own memory',
 'After every operation the text is followed by a terminating zero, its size equals the length of the text, and it lies within a live block of the allocator at least capacity plus one bytes long; growth keeps the contents. All memory obtained is given back with the size it was obtained with, each block once, by the time the container is destroyed.',
 ['inputs','histories','fault_sequences'],'every operation and argument with spare capacity or without','Off-by-one sizes and lost terminators do not show in text comparisons; tests use the default allocator and do not read past the end.',
 [st,ub,B+'basic_url.hpp'],[('alloc_storage',st),('resize_impl',ub),('basic_url',B+'basic_url.hpp')],[('s_','text buffer',ubh),('capacity','size of the block',st)])
p('C12','Segments are exactly the path split at slashes, through every edit',
 'Iterating the path segments, forwards or backwards, gives exactly the pieces between the slashes of the path, encoded and decoded, and their number is the reported size. Inserting, replacing or erasing segments changes the sequence exactly as the same edit changes a list, everything else in the URL staying the same, or throws and changes nothing when the result could not be a path there or the argument is invalid.',
 ['inputs','histories'],'every valid URL, every position, every argument','Tests walk and edit a few short paths; empty segments, a trailing slash, a query or fragment right after the path and the presence of an authority all interact.',
 [ub,uv,ubi,uvi],[('segments iterators',uv),('segments_type::erase, insert, replace',ub)],[('nseg','number of segments',parts)])
p('C13','Parameters are exactly the query split at & and =, and look-ups agree',
 'Iterating the query parameters, forwards or backwards, gives exactly the pieces between ampersands of the query, each split at its first equals sign, encoded and decoded, and their number is the reported size. Presence tests, counts, finds and look-ups by key agree with that sequence, comparing decoded keys.',
 ['inputs'],'every valid URL and every key','Tests iterate a few queries; empty keys, repeated keys, encoded delimiters and a fragment after the query combine freely.',
 [uv,ub,uvh,ubh,ct],[('params iterators',uv),('contains, count, find, at',ub),('key_equal',ct)],[('nparam','number of parameters',parts)])
p('C14','Well-known schemes are recognised in any case; normalisation is exact',
 'A scheme name is identified as the well-known scheme it spells in any letter case, and as unknown or none otherwise. Normalising a URL, or its scheme, changes letters to lower case in the places the operation promises and nothing else, gives the same result when repeated, and leaves a valid URL equivalent to the one before.',
 ['inputs'],'every scheme text, every valid URL','Tests try each name in one or two spellings; near-misses and mixed case are many.',
 [B+'impl/scheme.ipp',ub],[('string_to_scheme',B+'impl/scheme.ipp'),('normalize, normalize_scheme',ub)])
p('C15','Setting a numeric port writes exactly its decimal digits',
 'For every unsigned value, setting the port to it stores its shortest decimal representation as the port and leaves all other components as they were, whatever URL it is applied to.',
 ['inputs'],'every 32-bit value','Tests set one or two ports; there are four billion values with one to ten digits.',
 [ub],[('set_port(unsigned)',ub),('port_string',ub)])
p('C16','Pool memory is aligned, inside the buffer, disjoint, and refused when exhausted',
 'Memory handed out by a fixed pool lies inside its buffer, is aligned for the requested type and does not overlap any block handed out before, for every sequence of requests; a request that does not fit throws and consumes nothing. Results decoded into pool memory are the same as with ordinary memory.',
 ['inputs','histories'],'every sequence of requests and buffer size','One test makes one allocation; alignment padding at the end of the buffer needs particular sizes.',
 [B+'static_pool.hpp'],[('basic_static_pool::allocate',B+'static_pool.hpp'),('allocator_type',B+'static_pool.hpp')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
N={
'C01':'solver decides acceptance for all texts of up to 10 arbitrary bytes (13 over delimiters, IPv6 literals to 45 characters); longer texts are outside',
'C02':'all accepted texts of up to 8 bytes (12 over delimiters) and all layouts of absent, empty and present parts',
'C03':'all texts of up to 8 bytes (11 over delimiters), valid or not, every access checked; longer texts are outside',
'C04':'all hosts of up to 8 bytes, dotted quads to 16, IPv6 literals to 20 characters (45 over 1a:.)',
'C05':'all accepted texts of up to 9 bytes, 13 over percent and hex digits',
'C06':'all arguments of up to 2 bytes on all URLs of up to 5 bytes, 5 bytes on short URLs, and on all layouts of parts',
'C07':'all arguments of up to 2 bytes on all URLs of up to 5 bytes, 4 to 6 bytes on short URLs and layouts',
'C08':'one setter on all URLs of up to 5 bytes and all layouts of parts',
'C09':'one operation from every URL of up to 5 bytes and all layouts; longer histories by induction over the text',
'C10':'all arguments of up to 2 to 6 bytes, allocation failure at every request of the operation',
'C11':'one operation, then growth, from every URL of up to 5 bytes and all layouts, with and without spare capacity',
'C12':'all URLs of up to 6 to 10 characters for iteration, 5 to 8 for edits, all positions; two known findings excluded and probed',
'C13':'all URLs of up to 7 bytes (9 over query characters), keys of up to 2',
'C14':'scheme texts of up to 8 bytes; all URLs of up to 8 bytes (11 over delimiters)',
'C15':'all 2^32 values on five starting URLs',
'C16':'up to 4 requests of any of the element types on buffers of up to 17 bytes (39 for one request) at up to 16 alignments',
}
T={'C16':'symbolic execution of the LLVM IR of the real code, assertions decided by BDD and Z3'}
M={'version':1,'setup_cmd':'bash engine/build.sh build',
 'checks':[{'property':x['id'],'quick_cmd':'python3 run.py %s quick'%x['id'],'thorough_cmd':'python3 run.py %s thorough'%x['id'],
   'technique':'symbolic execution of the LLVM IR of the real code, assertions over all inputs decided by BDDs and Z3, counterexamples replayed natively','level':'model_checking','level_note':N[x['id']]} for x in P],
 'not_applicable':[]}
json.dump(M,open('/verif/MANIFEST.json','w'),indent=1)
import jsonschema
for x in P: jsonschema.validate(x,json.load(open('/root/.vp/PROPERTIES.schema.json'))); assert len(x['title'])<=80
jsonschema.validate(M,json.load(open('/root/.vp/MANIFEST.schema.json')))
