-------------------------------- MODULE Data --------------------------------
(* The data structures requests are made of: the key-value storage (C28), the lazily parsed query (C26),
   the cookies (C27), the filling of a configuration (C36) and the fixed tables (C33). *)
EXTENDS Text

----------------------------------------------------------------------------
(* Storage: the ordered list of pairs [k, v] that were added *)
KVGet(s, key) == SelectInSeq(s, LAMBDA p : EqFold(p.k, key))
KVValues(s, key) == LET m == SelectSeq(s, LAMBDA p : EqFold(p.k, key)) IN [n \in 1..Len(m) |-> m[n].v]
KVKeys(s) == FoldLeft(LAMBDA acc, p : IF \E n \in 1..Len(acc) : EqFold(acc[n], p.k) THEN acc ELSE Append(acc, p.k), <<>>, s)
KVAdd(s, k, v) == Append(s, [k |-> k, v |-> v])

----------------------------------------------------------------------------
(* Query: the answers are functions of the raw query alone *)
QGet(raw, key) == LET q == ParseQuery(raw)
                      n == KVGet(q.pairs, key)
                  IN IF ~q.ok THEN [err |-> "bad", val |-> <<>>]
                     ELSE IF n = 0 THEN [err |-> "nokey", val |-> <<>>]
                     ELSE [err |-> "", val |-> q.pairs[n].v]
QAll(raw) == LET q == ParseQuery(raw)
             IN IF q.ok THEN [err |-> "", pairs |-> q.pairs] ELSE [err |-> "bad", pairs |-> <<>>]

\* all Cookie headers together
CookiesOf(hs) ==
  IF \A n \in 1..Len(hs) : ParseCookies(hs[n]).ok
  THEN [ok |-> TRUE, pairs |-> FoldLeft(LAMBDA acc, h : acc \o ParseCookies(h).pairs, <<>>, hs)]
  ELSE [ok |-> FALSE, pairs |-> <<>>]

----------------------------------------------------------------------------
(* Protocols *)
KnownProto(in) == in \in {B("HTTP/1.0"), B("HTTP/1.1"), B("HTTP/2.0")}
ProtoStr(in) == CASE in = B("HTTP/1.0") -> B("HTTP/1.0 ") [] in = B("HTTP/1.1") -> B("HTTP/1.1 ")
                  [] in = B("HTTP/2.0") -> B("HTTP/2 ") [] OTHER -> <<>>
\* the first supported token of an Upgrade header
UpTok(t) == CASE t \in {B("http/1.0"), B("HTTP/1.0")} -> B("HTTP/1.0 ")
              [] t \in {B("http/1.1"), B("HTTP/1.1")} -> B("HTTP/1.1 ")
              [] t \in {B("h2c"), B("H2C")} -> B("HTTP/2 ")
              [] OTHER -> <<>>
UpgradeOf(line) ==
  LET toks == Split(line, 44)
      n == SelectInSeq(toks, LAMBDA x : UpTok(TrimSpace(x)) # <<>>)
  IN IF n = 0 THEN <<>> ELSE UpTok(TrimSpace(toks[n]))

(* Methods *)
Methods == <<"GET", "HEAD", "POST", "PUT", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH">>
MethodBytes == [n \in 1..Len(Methods) |-> B(Methods[n])]
KnownMethod(in) == \E n \in 1..Len(Methods) : in = MethodBytes[n]

(* Statuses *)
StatusTable == <<
 <<100, "Continue">>, <<101, "Switching Protocols">>, <<102, "Processing">>, <<103, "Early Hints">>,
 <<200, "OK">>, <<201, "Created">>, <<202, "Accepted">>, <<203, "Non-Authoritative Information">>,
 <<204, "No Content">>, <<205, "Reset Content">>, <<206, "Partial Content">>, <<207, "Multi-Status">>,
 <<208, "Already Reported">>, <<226, "IM Used">>,
 <<300, "Multiple Choices">>, <<301, "Moved Permanently">>, <<302, "Found">>, <<303, "See Other">>,
 <<304, "Not Modified">>, <<305, "Use Proxy">>, <<307, "Temporary Redirect">>, <<308, "Permanent Redirect">>,
 <<400, "Bad Request">>, <<401, "Unauthorized">>, <<402, "Payment Required">>, <<403, "Forbidden">>,
 <<404, "Not Found">>, <<405, "Method Not Allowed">>, <<406, "Not Acceptable">>,
 <<407, "Proxy Authentication Required">>, <<408, "Request Timeout">>, <<409, "Conflict">>, <<410, "Gone">>,
 <<411, "Length Required">>, <<412, "Precondition Failed">>, <<413, "Request Entity Too Large">>,
 <<414, "Request URI Too Long">>, <<415, "Unsupported Media Type">>, <<416, "Requested Range Not Satisfiable">>,
 <<417, "Expectation Failed">>, <<418, "I'm a teapot">>, <<421, "Misdirected Request">>,
 <<422, "Unprocessable Entity">>, <<423, "Locked">>, <<424, "Failed Dependency">>, <<425, "Too Early">>,
 <<426, "Upgrade Required">>, <<428, "Precondition Required">>, <<429, "Too Many Requests">>,
 <<431, "Request Header Fields Too Large">>, <<451, "Unavailable For Legal Reasons">>,
 <<500, "Internal Server Error">>, <<501, "Not Implemented">>, <<502, "Bad Gateway">>,
 <<503, "Service Unavailable">>, <<504, "Gateway Timeout">>, <<505, "HTTP Version Not Supported">>,
 <<506, "Variant Also Negotiates">>, <<507, "Insufficient Storage">>, <<508, "Loop Detected">>,
 <<510, "Not Extended">>, <<511, "Network Authentication Required">> >>
StatusOf == [c \in {StatusTable[n][1] : n \in 1..Len(StatusTable)} |->
               B(StatusTable[CHOOSE n \in 1..Len(StatusTable) : StatusTable[n][1] = c][2])]
KnownStatus(c) == c \in DOMAIN StatusOf
StatusText(c) == IF KnownStatus(c) THEN StatusOf[c] ELSE B("Unknown Status Code")

(* Errors: the code each one carries *)
ErrorTable == <<
 <<"ConnectionTimeout", 408>>, <<"CloseConnection", 439>>, <<"Shutdown", 439>>, <<"GracefulShutdown", 439>>,
 <<"BadRequest", 400>>, <<"TooLongRequestLine", 400>>, <<"URIDecoding", 400>>, <<"BadQuery", 400>>,
 <<"NotFound", 404>>, <<"InternalServerError", 500>>, <<"NotImplemented", 501>>, <<"MethodNotImplemented", 501>>,
 <<"MethodNotAllowed", 405>>, <<"TooLarge", 413>>, <<"BodyTooLarge", 413>>, <<"RequestEntityTooLarge", 413>>,
 <<"HeaderFieldsTooLarge", 431>>, <<"HeaderKeyTooLarge", 431>>, <<"HeaderValueTooLarge", 431>>,
 <<"TooManyHeaders", 431>>, <<"RequestHeaderFieldsTooLarge", 431>>, <<"URITooLong", 414>>,
 <<"RequestURITooLong", 414>>, <<"UnsupportedProtocol", 505>>, <<"HTTPVersionNotSupported", 505>>,
 <<"Unauthorized", 401>>, <<"PaymentRequired", 402>>, <<"Forbidden", 403>>, <<"NotAcceptable", 406>>,
 <<"ProxyAuthRequired", 407>>, <<"RequestTimeout", 408>>, <<"Conflict", 409>>, <<"Gone", 410>>,
 <<"LengthRequired", 411>>, <<"PreconditionFailed", 412>>, <<"UnsupportedMediaType", 415>>,
 <<"UnsupportedEncoding", 415>>, <<"RequestedRangeNotSatisfiable", 416>>, <<"ExpectationFailed", 417>>,
 <<"Teapot", 418>>, <<"MisdirectedRequest", 421>>, <<"UnprocessableEntity", 422>>, <<"Locked", 423>>,
 <<"FailedDependency", 424>>, <<"TooEarly", 425>>, <<"UpgradeRequired", 426>>, <<"PreconditionRequired", 428>>,
 <<"TooManyRequests", 429>>, <<"UnavailableForLegalReasons", 451>>, <<"BadGateway", 502>>,
 <<"ServiceUnavailable", 503>>, <<"GatewayTimeout", 504>>, <<"VariantAlsoNegotiates", 506>>,
 <<"InsufficientStorage", 507>>, <<"LoopDetected", 508>>, <<"NotExtended", 510>>,
 <<"NetworkAuthenticationRequired", 511>> >>
ErrCode == [nm \in {ErrorTable[n][1] : n \in 1..Len(ErrorTable)} |->
              ErrorTable[CHOOSE n \in 1..Len(ErrorTable) : ErrorTable[n][1] = nm][2]]

(* Media types *)
MimeTable == <<
 <<".avif", "image/avif">>, <<".css", "text/css; charset=utf-8">>, <<".gif", "image/gif">>,
 <<".htm", "text/html; charset=utf-8">>, <<".html", "text/html; charset=utf-8">>, <<".jpeg", "image/jpeg">>,
 <<".jpg", "image/jpeg">>, <<".js", "text/javascript; charset=utf-8">>, <<".json", "application/json">>,
 <<".mjs", "text/javascript; charset=utf-8">>, <<".pdf", "application/pdf">>, <<".png", "image/png">>,
 <<".svg", "image/svg+xml">>, <<".wasm", "application/wasm">>, <<".webp", "image/webp">>,
 <<".xml", "text/xml; charset=utf-8">>, <<".gz", "application/gzip">>, <<".sql", "application/sql">>,
 <<".tzif", "application/tzif">>, <<".yaml", "application/yaml">>, <<".xfdf", "application/xfdf">>,
 <<".zip", "application/zip">>, <<".zlib", "application/zlib">>, <<".zstd", "application/zstd">>,
 <<".ico", "image/vnd.microsoft.icon">> >>
MimeOf(ext) == LET n == SelectInSeq(MimeTable, LAMBDA x : x[1] = ext)
               IN IF n = 0 THEN "" ELSE MimeTable[n][2]
=============================================================================
