import json
P=[]
def p(id,title,st,over,q,why,files,mech,obs=None):
    assert len(title)<=80,title
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],hook_needed=None))
    if obs: d['anchors']['observe_at']=obs
    P.append(d)
C='openid/consumer/consumer.py'; S='openid/server/server.py'; TR='openid/server/trustroot.py'
p('C01','A login succeeds only on a verified signature',
 "The relying party reports success for a provider response only if its signature verified under an association stored for the endpoint that was verified as the asserting provider and for the handle named in the response, with lifetime remaining; or, when no such association is stored, that same endpoint, sent the response's own fields with the mode changed to check_authentication, answered is_valid with exactly 'true'. A transport error, an error reply, a missing signature or list of signed fields, or any other answer never yields success.",
 ['inputs','histories','fault_sequences'],'every response message, every store content, every provider reply or transport failure, every path through completion',
 'Tests sample a handful of forged or expired messages with stub stores; they cannot show that no other path reaches a success result.',
 [C,'openid/association.py'],[('signature or direct verification gate',C+': GenericConsumer._doIdRes, _idResCheckSignature, _checkAuth, _processCheckAuthResponse'),('signature comparison','openid/association.py: Association.checkMessageSignature')],['Consumer.complete result status'])
p('C02','A provider response can be used for at most one login',
 "The relying party reports success only after the response's nonce (for OpenID 2 the provider's response nonce, for OpenID 1 the nonce the relying party itself put in the return address) was present, well formed, and accepted as first use by the relying party's store under the key of the verified provider endpoint (the relying party's own key for OpenID 1). If the store refuses the nonce, or the nonce is absent or malformed, the response fails, and this check happens after the signature check so that forged responses cannot burn nonces.",
 ['inputs','histories'],'every response and every history of earlier responses seen by the store','A replay needs a second presentation of any of unboundedly many messages; tests replay one.',
 [C,'openid/store/nonce.py'],[('nonce consumption',C+': GenericConsumer._idResCheckNonce'),('nonce parsing','openid/store/nonce.py: split')],['Consumer.complete result status','store useNonce call'])
p('C03','A response is accepted only at the return address it was issued for',
 "The relying party reports success only if the return address carried in the response has the same scheme, authority and path as the URL the response was received on, every query argument of that return address was received with the same value, and every received non-protocol argument appears in that return address's query. Any mismatch or missing argument turns the response into a failure.",
 ['inputs'],'every response query and every return address','The set of extra, missing and altered arguments is unbounded; tests check a few URLs.',
 [C],[('return address check',C+': GenericConsumer._checkReturnTo, _verifyReturnToArgs')],['Consumer.complete result status'])
p('C04','Mandatory response fields are present and covered by the signature',
 "The relying party reports success only if the response carries return_to, assoc_handle, sig and signed, plus op_endpoint for OpenID 2 or identity for OpenID 1, and if the signed list covers return_to and identity and, for OpenID 2, also response_nonce, claimed_id, assoc_handle and op_endpoint whenever those are present. A response missing or not signing one of them is a failure.",
 ['inputs'],'every subset of present and signed fields of a response, for every protocol version','Tests remove a few fields one at a time; every combination for both protocol versions on every path is out of reach.',
 [C],[('required field tables',C+': GenericConsumer._idResCheckForFields')],['Consumer.complete result status'])
p('C05','The provider is authoritative for the identifier it asserts',
 "The endpoint attached to a successful login either comes from the information the relying party discovered before the request or from fresh discovery on the claimed identifier in the response, and in both cases its service types, claimed identifier (ignoring only a fragment), local identifier and, for OpenID 2, provider endpoint URL all equal those in the response. When no discovered service matches every one of these the response is a failure, and only an OpenID 2 response that asserts no identifier at all may skip discovery.",
 ['inputs','histories'],'every response, every pre-discovered endpoint (including none) and every discovery result','Mismatch combinations and the fallback from stored to fresh discovery multiply; tests sample some.',
 [C,'openid/consumer/discover.py'],[('discovery verification',C+': GenericConsumer._verifyDiscoveryResults*, _verifyDiscoverySingle, _verifyDiscoveredServices')],['SuccessResponse endpoint'])
p('C06','Extension data is taken from the response only when it was signed',
 "Reading a field, a namespace or an extension's data from a successful response in its signed form yields a value only if the response's signed list covers every field returned, and nothing otherwise. The simple-registration, attribute-exchange and PAPE readers use the signed form unless the caller of that reader explicitly asks for unsigned data.",
 ['inputs'],'every response, every signed list, every extension namespace','A response can leave any subset of extension fields unsigned; tests leave out one or two.',
 [C,'openid/extensions/sreg.py','openid/extensions/ax.py','openid/extensions/pape.py','openid/extensions/draft/pape2.py'],[('signed accessors',C+': SuccessResponse.isSigned, getSigned, getSignedNS, extensionResponse'),('extension readers','fromSuccessResponse of each extension')],['values returned by extension readers'])
p('C07','Associations are stored only if the provider answered what was asked',
 "The relying party stores and uses a new association only when the reply came to its own associate request, names a session type equal to the one it requested (OpenID 1 may fall back to no encryption) and an association type that session type may carry, and has an integer lifetime; the secret is extracted by that session and stored under the provider endpoint that was asked. A fallback type suggested by the provider is tried at most once and only if the relying party's own configuration allows it, and a failed negotiation leaves the store unchanged.",
 ['inputs','fault_sequences','configurations'],'every provider reply, every negotiator configuration','Replies and negotiation sequences are unbounded; a downgrade needs a hostile provider.',
 [C,'openid/association.py'],[('negotiation',C+': GenericConsumer._getAssociation, _negotiateAssociation, _extractSupportedAssociationType, _extractAssociation'),('allowed types','openid/association.py: SessionNegotiator')],['store storeAssociation call'])
p('C08','Response modes map to the right outcome and the session is cleared',
 "Completing a response returns success only for mode id_res, cancellation for cancel, a setup-needed result only for an OpenID 2 setup_needed response or an OpenID 1 id_res response with a setup URL, and failure for error and every other or missing mode; protocol violations found while checking an id_res response become a failure result. After completion the pending-request entry is gone from the session whatever the outcome, and discovery state is discarded only after success or cancellation.",
 ['inputs','histories'],'every mode string and every response','Mode strings and failure points are unbounded.',
 [C],[('dispatch',C+': GenericConsumer.complete, _complete_*'),('session cleanup',C+': Consumer.complete')],['Consumer.complete result','session contents'])
p('C09','Every positive assertion leaves the provider completely signed',
 "Whenever the provider encodes a positive (id_res) response for sending, it is signed exactly once, by an association the provider itself holds, and the signed list names every protocol field in the message including the handle and the list itself. The signature is computed over the final field values, an already signed response is refused, and a response without a signing store is never sent unsigned.",
 ['inputs','configurations'],'every request, every extension field added to the response, every store','Any field added by any extension must be covered; tests check one field set.',
 [S,'openid/association.py'],[('signing encoder',S+': SigningEncoder.encode, Signatory.sign'),('signed list','openid/association.py: Association.signMessage')],['encoded response'])
p('C10','Direct verification accepts only private unexpired handles, and only once',
 "The provider answers check_authentication with is_valid true only if the signature verifies under a private (stateless) association with that handle that is stored and unexpired; a shared association's handle is never accepted. Whatever the answer, that private handle is invalidated before the answer is returned so a second check of the same response says false, and a handle the relying party reports as invalid is confirmed only when the provider has no such shared association.",
 ['inputs','histories'],'every check_authentication request and every history','The same assertion can be re-presented after any history; tests do it once.',
 [S],[('check_authentication',S+': CheckAuthRequest.answer, Signatory.verify, Signatory.invalidate')],['check_authentication response'])
p('C11','Unknown or expired handles fall back to a fresh private association',
 "When a request names an association handle that the provider does not hold as a shared association or that has expired, the response is signed with a newly created private association and carries invalidate_handle naming the handle that was refused; a request without a handle is signed with a new private association; otherwise the named shared association signs and no invalidate_handle is added. An expired association never signs and is removed.",
 ['inputs','histories'],'every handle and every store content and clock value','Expiry and lookup states multiply with request forms.',
 [S],[('association choice',S+': Signatory.sign, getAssociation, createAssociation')],['signed response fields'])
p('C12','Positive answers assert only permitted identifiers; negative ones assert none',
 "A positive answer carries the identifier in the request unless the request asked for identifier selection, in which case the application must supply one; an application-supplied identifier different from the requested one (up to URL normalisation), or any identifier for a request without one, is refused. Negative answers carry no identity, claimed identifier, nonce or association fields and use the mode required by the protocol version and the immediate flag, while every positive answer carries the request's return address, a fresh nonce and, for OpenID 2, the provider endpoint.",
 ['inputs'],'every request and every combination of answer arguments','The argument combinations for two protocol versions and immediate/setup mode exceed the tests.',
 [S],[('answer',S+': CheckIDRequest.answer')],['response fields'])
p('C13','The provider never accepts a return address outside the realm',
 "A checkid request is accepted only if its return address, when present, parses as a URL pattern without being rejected and lies under the request's realm (the return address itself when no realm is given), and the realm itself parses; otherwise decoding reports a protocol error. A request with neither realm nor return address is refused, and answering or cancelling a request without return address is refused.",
 ['inputs'],'every checkid request','Realm and return-address pairs are unbounded.',
 [S,TR],[('request validation',S+': CheckIDRequest.__init__, fromMessage, trustRootValid'),('realm match',TR+': TrustRoot.validateURL')],['decodeRequest result'])
p('C14','A realm matches exactly its own scheme, port, host pattern and path prefix',
 "A URL is matched by a realm only if schemes are equal, ports are equal (defaults 80 and 443), the host equals the realm's host or, for a wildcard realm, is that host or ends with a dot plus it, and the path equals the realm's path or continues it at a slash or query boundary (at an ampersand when the realm itself has a query). A realm whose host is only the wildcard matches any host. A realm with a fragment, with a scheme other than http or https, or with a misplaced wildcard does not parse.",
 ['inputs'],'every realm and URL string','String pairs are unbounded; off-by-one prefix matches (example.com vs badexample.com) need specific pairs.',
 [TR],[('matching',TR+': TrustRoot.parse, TrustRoot.validateURL')],['TrustRoot.parse and validateURL results'])
p('C15','Relying-party verification accepts only published return addresses',
 "Verifying a return address against a realm by discovery succeeds only if discovery on the realm succeeded without being redirected and the return address matches one of the return-to URLs published there; published URLs that contain a wildcard never match. Discovery failure or redirection never counts as verified.",
 ['inputs','fault_sequences'],'every discovery result','Discovery documents are unbounded.',
 [TR],[('verification',TR+': getAllowedReturnURLs, returnToMatches, verifyReturnTo')],['verifyReturnTo result'])
p('C16','The provider issues associations only of allowed types with strong secrets',
 "An associate request is answered with an association only if the session type is known, the association type is one that session may carry, and the provider's configuration allows the pair; the answer then carries the type requested, the handle, remaining lifetime and the secret only in the form the session prescribes (plain only for no-encryption). Otherwise an OpenID 2 request gets an unsupported-type error with the preferred allowed pair and OpenID 1 a protocol error; each issued secret is fresh operating-system randomness of exactly the length of the association type and is stored as shared for associate and private for stateless use.",
 ['inputs','configurations'],'every associate request and negotiator configuration','Type pairs times configurations times protocol versions.',
 [S,'openid/association.py'],[('associate',S+': AssociateRequest.fromMessage, AssociateRequest.answer, Server.openid_associate, Signatory.createAssociation')],['associate response'])
p('C17','Provider replies use the encoding their receiver can read',
 "Responses to browser requests are sent as a redirect to the request's return address, or as a self-submitting form when an OpenID 2 reply exceeds the redirect limit; direct requests get key-value form with status 200, and errors about direct requests get status 400 in key-value form. Malformed incoming requests (missing or unknown mode, bad namespace) are reported as protocol errors rather than processed.",
 ['inputs'],'every request and response','Combinations of request kind, version, size and error state.',
 [S],[('encoding',S+': OpenIDResponse.whichEncoding, ProtocolError.whichEncoding, Encoder.encode'),('decoding',S+': Decoder.decode')],['WebResponse'])
ST=['openid/store/memstore.py','openid/store/filestore.py','openid/store/sqlstore.py','openid/store/nonce.py']
p('C18','Every store accepts a nonce at most once and only inside the time window',
 "For every bundled store, using a nonce returns true only if its timestamp is within the allowed skew of the current time on both sides and the exact combination of server URL, timestamp and salt has not been accepted before; acceptance and recording are one atomic step in the file and database stores. Cleaning up nonces removes only nonces already outside that window.",
 ['histories','schedules','inputs'],'every sequence and interleaving of nonce uses and cleanups','Races and boundary timestamps cannot be enumerated by tests.',
 ST,[('nonce use','useNonce of each store, sqlstore txn_useNonce and SQL'),('cleanup','cleanupNonces of each store')],['useNonce result'])
p('C19','A store returns only the right, live association, preferring the newest',
 "Looking up an association returns only one stored for that server URL and, when a handle is given, with that handle; without a handle it returns the most recently issued one. The file and database stores never return an association whose lifetime is over, and an unreadable stored association counts as absent.",
 ['histories','inputs'],'every sequence of store operations and every clock','Histories are unbounded.',
 ST[:3]+['openid/association.py'],[('lookup','getAssociation of each store')],['getAssociation result'])
p('C20','A crash never leaves a half-written association visible in the file store',
 "Storing an association in the file store makes it visible under its final name only by an atomic rename of a fully written, flushed and synced temporary file in the same store; on any error the temporary file is removed and the error propagates. Readers treat a missing file as absent and remove rather than return a corrupt one.",
 ['crash_points','fault_sequences'],'a crash or I/O error at every point of storing an association','Tests do not crash between write, flush, sync and rename.',
 ['openid/store/filestore.py'],[('write path','openid/store/filestore.py: FileOpenIDStore.storeAssociation, _mktemp')],['association directory contents'])
p('C21','Database store operations are transactions that commit or roll back',
 "Every public operation of the database stores runs in one transaction that commits only if the operation finished without an exception and rolls back otherwise, re-raising the error, and closes its cursor either way. Statements pass every value as a bound parameter, in the column order of the statement, so no caller-supplied text ever becomes SQL.",
 ['fault_sequences','inputs'],'every operation, every database failure point and every argument text','Failure at each statement and hostile text in each argument are not tested; two of the three back ends are not even run.',
 ['openid/store/sqlstore.py'],[('transaction wrapper','openid/store/sqlstore.py: _inTxn, SQLStore._callInTransaction'),('statements','openid/store/sqlstore.py: *_sql, db_*')],['database connection calls'])
p('C22','Store cleanup deletes exactly the expired associations',
 "Association cleanup in every bundled store removes each association whose lifetime is over and no other, and returns how many it removed; removing an association removes only the one with the given server URL and handle and reports whether it existed. The three stores agree on these meanings.",
 ['histories'],'every store content and clock','Contents are unbounded; only one database back end is run.',
 ST[:3],[('cleanup','cleanupAssociations, removeAssociation of each store')],['store contents after cleanup'])
p('C23','Untrusted text never escapes the file store directory',
 "Every file the file store opens, creates, renames or deletes lies directly inside one of its own directories: names are built only from fixed text, hexadecimal numbers, digests in a filename-safe alphabet and text escaped to filename-safe characters, whatever the server URL, handle, salt or timestamp. Two different (server URL, handle) or (server URL, timestamp, salt) keys get different names, up to digest collision.",
 ['inputs'],'every server URL, handle and salt text','Traversal needs specific hostile strings.',
 ['openid/store/filestore.py'],[('names','openid/store/filestore.py: getAssociationFilename, useNonce, _filenameEscape, _safe64')],['file system calls'])
p('C24','Secrets are unpredictable and signatures are compared in constant time',
 "Association secrets, handles' unique parts and nonce salts are drawn from the operating system's secure randomness on every use, Diffie-Hellman private keys from the crypto library, and no value that is stored, sent or compared in the protocol comes from another random source. A received signature is compared with the computed one only through a constant-time comparison of the full values, and each association type uses its own hash with a matching secret length.",
 ['inputs','histories','programs'],'every place that creates or compares a secret','Predictability and timing are invisible to functional tests.',
 ['openid/association.py','openid/store/nonce.py',S,'openid/dh.py'],[('randomness',S+': Signatory.createAssociation; openid/store/nonce.py: make_nonce_salt'),('comparison','openid/association.py: Association.checkMessageSignature'),('type tables','openid/association.py: hmac_algorithms, getSecretSize')],[])
p('C25','Both ends of an association session derive the same secret',
 "For each session type the relying party and the provider use the same field names, hash, Diffie-Hellman parameters (defaults when the request omits them, both given otherwise) and encoding, and allow the same association types, so that the secret the relying party extracts is the one the provider issued. Integers, the shared Diffie-Hellman value included, are sent and hashed in shortest big-endian two's-complement form, with a leading zero byte exactly when the top bit would be set.",
 ['inputs'],'every key pair and secret','A leading-zero or parameter mismatch shows only for some keys.',
 [C,S,'openid/dh.py','openid/cryptutil.py','openid/constants.py'],[('sessions',C+': *ConsumerSession; '+S+': *ServerSession'),('encoding','openid/cryptutil.py: int_to_bytes, fix_btwoc; openid/dh.py: xor_secret')],['association secret'])
p('C26','Distinct field sets never share one signed or key-value encoding',
 "Key-value form encoding refuses any key containing a newline or colon and any value containing a newline, and writes each pair as key, colon, value, newline in order, so the bytes that are signed determine the pairs. The signature base contains exactly the fields of the signed list, in that order, each with its value in the message, keyed with the association's secret under the association type's hash; decoding splits at the first colon of each line.",
 ['inputs'],'every field set','Injection needs specific characters in specific fields.',
 ['openid/kvform.py','openid/association.py'],[('encoding','openid/kvform.py: seqToKV, kvToSeq'),('signature base','openid/association.py: _makePairs, sign')],['signature value'])
p('C27','Message namespaces and aliases stay a one-to-one map',
 "In every message an alias names one namespace and a namespace has one alias: an attempt to redefine either, to use a protocol field name as alias or an alias with a dot is refused, the message's own namespace must be one of the known OpenID namespaces, and reading or writing a field always addresses the namespace given, never the alias text. A field read from a received message belongs to the namespace its prefix was declared for, with undeclared prefixes staying in the protocol namespace except registered OpenID 1 defaults.",
 ['inputs','histories'],'every received field set and every sequence of message updates','Alias collisions need specific message shapes.',
 ['openid/message.py'],[('namespace map','openid/message.py: NamespaceMap.addAlias, add'),('message parsing','openid/message.py: Message._fromOpenIDArgs, getArg, setArg, toPostArgs')],['message contents'])
p('C28','Only http(s) URLs are fetched and all failures surface as fetch errors',
 "Every bundled HTTP fetcher refuses URLs whose scheme is not http or https, including each redirect target it follows itself, before contacting them; a refused or failed fetch raises and never returns a response. Through the package-level fetch functions every exception of a fetcher surfaces as a fetching error; the rest of the library contacts servers only through them.",
 ['inputs','fault_sequences'],'every URL, redirect chain and network failure','Tests use local stub servers and a few URLs.',
 ['openid/fetchers.py'],[('fetchers','openid/fetchers.py: fetch of each HTTPFetcher, ExceptionWrappingFetcher, _allowedURL')],['fetch result'])
p('C29','Only successful replies are believed; hostile XML stays inert',
 "Discovery documents and realm documents are used only from replies with a success status (200, or 206 where a partial document is allowed), and a direct reply with an error status is reported as a server error or transport error, never as data. Documents are parsed without resolving external entities, and a document that is not well-formed or not an XRDS document is rejected instead of being interpreted; an unreadable or malformed reply, or one in an unknown character encoding, is ignored or reported with the documented error and never as another exception.",
 ['inputs','fault_sequences'],'every HTTP reply','Replies are unbounded.',
 ['openid/yadis/discover.py','openid/yadis/etxrd.py','openid/yadis/xrires.py','openid/consumer/discover.py',C],[('status checks','fetchData / discover / query / _httpResponseToMessage'),('parser','openid/yadis/etxrd.py: parseXRDS')],['discovery results'])
p('C30','An XRI resolves to a canonical identifier its authority may assign',
 "A canonical identifier is taken from an XRI resolution only from the final descriptor, and only if each descriptor's canonical identifier is a child of its parent's authority up to the root authority of the queried name; a missing canonical identifier means the endpoint has none and a violating chain is reported as fraud. The claimed identifier of services discovered for an XRI is that canonical identifier.",
 ['inputs'],'every descriptor chain','Hostile descriptor chains are unbounded.',
 ['openid/yadis/etxrd.py','openid/yadis/xri.py','openid/yadis/xrires.py','openid/consumer/discover.py'],[('authority check','openid/yadis/etxrd.py: getCanonicalID; openid/yadis/xri.py: providerIsAuthoritative, rootAuthority')],['discovery results'])
p('C31','Services are tried in published priority order, best protocol first',
 "Services and their URIs are ordered by ascending priority value with missing priority last and ties in any order; among usable endpoints, provider-identifier endpoints win over user endpoints, newer protocol types over older, and discovery then tries every remaining endpoint once per attempt before starting over. Endpoints are produced only for services whose type is one of the known OpenID types.",
 ['inputs'],'every discovery document','Orderings of any number of services.',
 ['openid/yadis/etxrd.py','openid/consumer/discover.py','openid/yadis/manager.py'],[('ordering','openid/yadis/etxrd.py: prioSort, getPriority, iterServices; openid/consumer/discover.py: getOPOrUserServices, arrangeByType'),('rotation','openid/yadis/manager.py')],['discovery results'])
p('C32','Attribute exchange honours the request it answers',
 "An attribute-exchange request is accepted only if its update URL, when present, lies under the request's realm, and every attribute has a well-formed alias and count; a response to a request carries only attributes that were requested and at most the requested number of values each, and reports zero values for those not supplied. Values are read back with the counts they were sent with, and malformed or wrong-mode data is refused.",
 ['inputs'],'every attribute set, alias and count','Attribute sets and counts are unbounded.',
 ['openid/extensions/ax.py'],[('request','openid/extensions/ax.py: FetchRequest'),('response','openid/extensions/ax.py: FetchResponse, AXKeyValueMessage')],['extension arguments'])
p('C33','What an extension writes its reader understands',
 "For each bundled extension, every argument the request or response object writes into a message is one its own parser reads, every attribute of the object that the parser can set is written back when it is set, and default and sentinel values agree on both sides. The namespace used for writing is one the reader looks in.",
 ['inputs'],'every request and response object','Combinations of optional attributes.',
 ['openid/extensions/sreg.py','openid/extensions/ax.py','openid/extensions/pape.py','openid/extensions/draft/pape2.py'],[('writers and readers','getExtensionArgs / parseExtensionArgs of each extension')],['extension arguments'])
p('C34','Protocol text is always escaped in generated HTML and URLs',
 "Field names, values, the action address and caller-supplied attributes in a generated form are emitted only through an HTML-escaping serializer, and arguments appended to an address are percent-encoded and joined with the separator its existing query needs. The address itself and the set of fields are those of the message.",
 ['inputs'],'every message and address','Markup injection needs specific field text.',
 ['openid/message.py','openid/oidutil.py',S,C],[('form','openid/message.py: Message.toFormMarkup'),('URL','openid/oidutil.py: appendArgs')],['generated HTML and URLs'])
p('C35','All stores implement one interface and documented optional arguments',
 "Every bundled store provides every operation of the store interface with compatible parameters, and each documented optional argument of the public constructors and entry points can be omitted without an error caused by its own default. Objects documented as iterable can be iterated on every supported Python version.",
 ['programs','configurations'],'every store, constructor and optional argument','Tests always pass the arguments or use only one store through some paths.',
 ST[:3]+['openid/store/interface.py',S,'openid/yadis/manager.py'],[('interface','openid/store/interface.py: OpenIDStore'),('defaults','constructors of stores and server')],[])
p('C36','URL normalisation is idempotent and equates equivalent URLs',
 "Normalising a normalised URL changes nothing, and two URLs that differ only in letter case of scheme or host, default port, percent-encoding of unreserved characters or dot segments normalise to the same text.",
 ['inputs'],'every URL','Strings are unbounded.',
 ['openid/urinorm.py'],[('normalisation','openid/urinorm.py: urinorm')],['urinorm result'])
p('C37','Messages survive encoding and decoding unchanged',
 "A message encoded as key-value form, query string, form or URL and decoded again has the same namespace and fields, for every field content the encoding accepts.",
 ['inputs'],'every message','Field contents are unbounded.',
 ['openid/message.py','openid/kvform.py'],[('codecs','openid/message.py: toPostArgs, fromPostArgs, toKVForm, fromKVForm')],['decoded message'])
p('C38','Fetching and parsing always terminate within bounded resources',
 "Whatever a remote server sends, a fetch and the parsing of its result end within a bounded time and memory.",
 ['inputs','fault_sequences'],'every reply stream','Streams are unbounded.',
 ['openid/fetchers.py','openid/yadis/parsehtml.py'],[('limits','openid/fetchers.py: MAX_RESPONSE_KB')],['fetch duration'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
