import subprocess
m={
'8d90997':('C01','concurrent requests shared one processing chain object and mixed up their records (also C02, M03)'),
'173cba2':('M01','membership resolution was inconsistent between both directions, depended on map order and recursed without bound (also C03)'),
'8466327':('M03','removing a group rule removed rules of other targets, adding matched by prefix'),
'dbcbb1e':('M03','a rule could make a group contain itself (also C03: unbounded recursion)'),
'0ef9549':('S04','metadata updates could overwrite protected fields'),
'34a6e9e':('K01','adding or removing a public key was applied to other keys containing it'),
'44b1d24':('C03','a key/value request without an element, value or data crashed the server (also K01)'),
'a5af610':('S03','delegated managers could not use their authority on group rules and members'),
'd8879ce':('S02','adding or removing members in several groups took effect in part when one group was refused'),
'8797cff':('C03','a token request naming no entity crashed the server'),
'e1cab9d':('S06','tokens lacked capabilities after a storage error instead of being refused (also D03)'),
'd5f09d0':('D03','a memberships request succeeded although groups could not be loaded'),
'a21ffce':('K01','group key/value: existing and missing keys were not refused'),
'08735dc':('S01','verifying and changing a secret was not one step, so a lock or change in between was undone (also C01)'),
'd93ba8b':('D03','a record that could not be read was taken for absent and could be overwritten'),
'78979d3':('D01','bitcask could not be opened, or lost or revived records, after a crash (also D02, D03)'),
'2f8669f':('I01','names that are no storage key of their own reached other records or files'),
'c1df657':('C02','automatic numbers wrapped around at the largest one'),
'1c653df':('D03','search and memberships went stale if a record just written could not be read back'),
'f6f5c0c':('D01','changes in the filesystem store were not permanent; errors while listing were hidden (also D02, D03)'),
'26bebb5':('S09','the server started although the bootstrap had failed'),
'ce0f7f1':('D04','nsutil exited with status zero although copying had failed'),
'4ab5279':('T01','token keys were written in place, so that a crash left a damaged or mismatched pair'),
'f15b741':('L01','the client token cache returned partly written tokens, and owners shared entries'),
'7813839':('X01','listing and searching failed while other records were deleted (also C03)'),
'bb3b8a8':('D03','bitcask looked empty if its data files could not be listed'),
'7d5f405':('D03','a failed bitcask write that took effect was never announced to search and memberships'),
'ad35184':('S01','secrets agreeing in their first 72 bytes were interchangeable with bcrypt'),
'7d7c1af':('D01','an interrupted change in the filesystem store was visible after the restart and could still be undone by a power failure'),
'd43cf5c':('P01','with a plugin loaded, set fields with zero values were lost on the way; a record holding an empty key/value value could not be changed anymore'),
'bd984df':('H01','a status request crashed the server when a plugin had failed to start (also C03)'),
'f2d8ac5':('X01','keys and untyped metadata, documented not to be, were visible to searches'),
'7a82564':('U01','a termination signal in the first moments of serving ended the server at once, with requests unanswered and plugins left running'),
'dd2800a':('U01','the exit status was zero although the default configuration could not be written'),
'e1d9bc2':('U01','a plugin process that did not provide the expected interface was left running at shutdown'),
'6611fdc':('U01','a failing start left the plugin processes running'),
'4598272':('U01','a plugin listed twice was started twice, and one process was left running at shutdown'),
'53b3fcb':('F01','with its section partly configured fail2lock lost its defaults and locked everyone out at once'),
'6af0593':('F01','the first authentication of an entity without metadata crashed fail2lock, and every later authentication failed (also P01)'),
'9b564f8':('F01','concurrent authentications raced on the record of failures in fail2lock, which crashes it'),
'e5f4f04':('F01','fail2lock crashed instead of reporting that there is no configuration'),
'63f153f':('X01','words like "it" and "all" were not found, matched records without them, and values looking like dates were not indexed as text'),
'd83b19d':('S01','with bcrypt the secrets "x" and "x\\0x" were interchangeable'),
'6fb235a':('S01','a secret verified for an entity could be set for another one created in its place (also C01)'),
'fdd2159':('K01','dropping a key without naming its type, as the command line client does, had no effect (since 34a6e9e)'),
'9648ffe':('N01','capabilities in lower case, as documented for the command line client, were refused by it'),
'3df7bac':('N01','malformed commands ended with exit status 0'),
'f62de3f':('N01','commands went on with an empty secret when none could be read'),
'c2212c5':('N01','a client without the key of the server died on a cached token'),
'45f5d19':('N01','the secret of the requester was silently set as the secret of the entity created or changed'),
'4a84ce8':('N01','group info listed groups managed by other groups as its own, and missed some'),
'7f0c97f':('D04','the copy utility ended with status 0 when it refused its arguments and copied nothing'),
}
log=subprocess.run(['git','-C','/repo','log','--format=%h %s','--reverse','bf13c9a..HEAD'],capture_output=True,text=True).stdout.split('\n')
out=[]
for l in log:
    if not l: continue
    h=l.split()[0][:7]
    if h not in m: print('missing',l); continue
    out.append('fixed: property=%s %s %s'%(m[h][0],h,m[h][1]))
f='/verif/known-findings.txt'
head=[l for l in open(f).read().split('\n') if l.startswith('#') or l.startswith('known:')]
open(f,'w').write('\n'.join(head+out)+'\n')
