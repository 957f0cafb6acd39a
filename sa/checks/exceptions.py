"""Reports that are not violations.  (property, file, category, message regex, reason): file and message, never a function name."""
TABLE = [
    ('C01', 'bst.c', 'leak', r'u_bst_node_new\)', 'the new node is linked by the recursive insertion; the summary of the randomised variant cannot name the place'),
    ('C23', 'uri.c', 'uninit', r'branch condition', 'user information is scanned only when its first character was seen, so the loop runs at least once'),
    ('C06', 'json.c', 'step', r'^u_lexer_skip ', 'end of text after the closing bracket is looked for by the caller of the parser (documented in place)'),
    ('C06', 'log.c', 'step', r'^(u_strerror_r|u_log) ', 'logging is best effort: the text of errno and the sink are not allowed to fail the caller'),
    ('C06', 'misc.c', 'step', r'^u_io ', 'end of file is told apart by the eof flag (decided by C09)'),
    ('C06', 'uri.c', 'step', r'^u_uri_crumble ', 'documented predicate: a text that is no URI is not an absolute URI'),
    ('C06', 'uri.c', 'step', r'^u_uri_crumble_user_password ', 'the deprecated user:password split of a user information that was already stored is best effort'),
    ('C03', 'uri.c', 'step', r'^u_uri_crumble ', 'documented predicate: a text that is no URI is not an absolute URI'),
    ('C03', 'uri.c', 'step', r'^u_uri_crumble_user_password ', 'the deprecated user:password split of a user information that was already stored is best effort'),
    ('C06', 'net.c', 'step', r'^u_net_unset_nonblocking ', 'putting the socket back to blocking is best effort (the result is cast to void in place); that it is attempted on every path is decided by C28'),
    ('C08', 'fs.c', 'io', r'^link ', 'a link across file systems falls back to a copy, whose own failure is followed'),
    ('C24', 'net.c', 'hidden', r'^strerror ', 'the text is consumed by the log call it is an argument of and never kept'),
    ('C24', 'bst.c', 'hidden', r'^s?rand ', 'documented: the randomised tree draws from the C library generator'),
    ('C25', 'env.c', 'process', r'^setenv ', 'loading variables into the environment is what the environment module is for'),
    ('C03', 'config.c', 'step', r'^u_config_get_subkey ', 'a variable that is not found in the local scope is looked up from the root', 1),
    ('C03', 'config.c', 'step', r'^u_config_include ', 'documented: a failing -include (optional dependency) is not an error; the mandatory include is a second site', 1),
    ('C03', 'config.c', 'step', r'^u_config_get_subkey_nth ', 'the search for the n-th include ends the loop over the includes', 1),
    ('C03', 'pwd.c', 'step', r'^u_pwd_need_reload ', 'documented: when the reload fails the previous complete snapshot keeps being used', 1),
    ('C06', 'config.c', 'step', r'^u_config_get_subkey ', 'a variable that is not found in the local scope is looked up from the root', 1),
    ('C06', 'config.c', 'step', r'^u_config_include ', 'documented: a failing -include (optional dependency) is not an error; the mandatory include is a second site', 1),
    ('C06', 'config.c', 'step', r'^u_config_get_subkey_nth ', 'the search for the n-th include ends the loop over the includes', 1),
    ('C06', 'pwd.c', 'step', r'^u_pwd_need_reload ', 'documented: when the reload fails the previous complete snapshot keeps being used', 1),
    ('C06', 'config.c', 'step', r'^u_string_set_length ', 'shortening a string by one cannot fail', 1),
    ('C06', 'json.c', 'step', r'^u_snprintf ', 'the array is sized from the very string that is printed into it plus quotes', 1),
]
