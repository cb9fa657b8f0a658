#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the file stays well-formed)."""
import json
C='1pass-core/core/'
P=[]
def p(id,title,statement,over,text,why,files,mech,obs=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state:a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    if obs:a['observe_at']=obs
    a['hook_needed']=None
    P.append({'id':id,'title':title,'statement':statement,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':a})
ITEMS='1pass-parse/repo/file/itemrepo.go'; PROF='1pass-parse/repo/file/profilerepo.go'; CONF='1pass-parse/repo/file/configrepo.go'
KEY=C+'service/keyservice.go'; ITS=C+'service/itemservice.go'; VF=C+'facade/vaultfacade.go'; VS=C+'service/vaultservice.go'
CLI='1pass-term/control/cobra/clicontrol.go'; COB='1pass-app/cli/cobra.go'; UPS=C+'service/updateservice.go'; UP='1pass-up/component/github/updater.go'
G='1pass-app/gui/'

p('C01','Only the master password opens a vault',
 'Unlocking succeeds exactly when the text entered is, byte for byte, the master password of the vault being opened, whatever its salt, iteration count, keys and password are, in the command line, the terminal interface and the programming interface alike. Any other entry (an empty one included, longer, shorter, other case, surrounding blanks, the password of another vault) is refused with the invalid password error and shows nothing of the vault. A refused attempt leaves a session as it was (locked, or unlocked with the same items) and never keeps a later correct attempt from succeeding.',
 ['inputs','histories'],'all vaults, all entered texts, all sequences of attempts, locks and unlocks',
 'The tests try one good and one bad password on one sample vault; the statement is about every password, every vault and every order of attempts, and neither the command line nor the terminal interface is tested at all.',
 [VF,KEY,PROF,'1pass-parse/util/pbkdf2/cryptoutils.go',CLI,G+'1passwidget.go',G+'passprompt.go'],
 [('Unlock derives keys and checks the MACs of the master and overview keys',VF),('DecodeOpdata: MAC before decryption',KEY),('password prompt and unlock handler',G+'1passwidget.go')],
 ['result of unlock','exit status and output of list/overview/details','screen after the password prompt'])
p('C02','Every stored item is reproduced, unchanged and exactly once',
 'After a vault is unlocked, the session holds exactly one entry for each item of a known category stored in it (and none for items of unknown categories), with the identifier, category, trashed flag, creation and modification time, title, URL and notes that were stored. This does not depend on how the items are spread over the band files (empty band files included), on other files lying in the vault, on the number or size of the items, or on the name of the directory the vault lies in.',
 ['inputs','configurations'],'all vaults: any number of items, any contents and sizes, any distribution over band files, any directory name',
 'The tests decode one sample vault with 29 items; sizes at block boundaries, Unicode, other band layouts, other directory names and time values are never reached.',
 [ITEMS,ITS,KEY],[('LoadItems reads all band files',ITEMS),('DecodeItems/DecodeOverview',ITS),('DecodeOpdata cuts the padding off',KEY)],['items returned by the session'])
p('C03','Every field of an item is shown, completely and exactly',
 'The details of an item hold exactly one labelled value for every form field with a name and a value and for every section field with a value, in the stored order, form fields first and then each section under its own title; sections without title and fields are left out. Values are shown character for character, except that dates are shown as YYYY-MM-DD (local time), month-year values as YYYY-MM and addresses as their parts in alphabetical order, one "part: value" per line; labels and section titles are the stored ones with each word capitalised.',
 ['inputs'],'all item details that the OPVault format allows',
 'The sample vault has a handful of shapes; items with both form fields and sections, the dates, unusual characters (percent signs, quotes, line breaks, non-ASCII) and empty values are not compared with what was stored.',
 [ITS,C+'domain/datatype.go',CLI],[('ParseItemField/ParseItemSection',ITS),('ParseValue',C+'domain/datatype.go')],['sections and fields of the item','output of details'])
p('C04','Altered vault data is never shown as genuine',
 'If any byte of an encrypted part of an item (its keys, its overview, its details) is altered, cut off or replaced by other bytes, that part is never shown: the item appears without what the part held (no title and URL, or no fields and notes). Everything else, that is the other items and the untouched parts of the same item, is shown exactly as before, and the application does not crash. If the encrypted master or overview keys of the vault are altered, the vault cannot be unlocked.',
 ['inputs','fault_sequences'],'all alterations of all encrypted parts of all items and of the vault keys, any number of them at once',
 'No test alters a single byte of a vault.',
 [KEY,ITS],[('CheckHmac before every decryption',KEY),('length checks in DecodeOpdata/ItemKeys',KEY),('DecodeItems continues with empty parts',ITS)],['items returned by the session','result of unlock'])
p('C05','Locking removes everything from the session',
 'After a vault is locked, the session reports that it is locked, holds no items (every count is zero, every list empty, no identifier yields an item) and the terminal interface shows nothing of the vault and asks for the password again. Only a successful unlock makes items available again, and it makes the same items available as a fresh start would.',
 ['histories'],'all sequences of unlocking, failing to unlock, reading and locking, from every window of the interface',
 'The tests lock once, after one unlock, and the terminal interface is not tested.',
 [VF,ITEMS,G+'1passwidget.go',G+'itemswidget.go',G+'detailswidget.go'],[('Lock clears items and keys',VF),('RemoveItems',ITEMS),('lock handlers of the windows',G)],['session queries after lock','screen after CTRL+L'])
p('C06','A session shows only the vault unlocked last, as it is on disk',
 'After a successful unlock the session holds exactly the items that the vault just opened has on disk at that moment. It never holds an item of a vault opened earlier, nor an item as it was before the vault changed on disk, whether or not the session was locked in between and however often vaults are opened, refused, changed and locked.',
 ['histories'],'all histories of validating, unlocking, failing, locking, and changes of the vaults on disk, over several vaults',
 'The tests open one vault once per process.',
 [VF,ITEMS,PROF,ITS],[('LoadProfile reads the profile of the vault validated',PROF),('StoreItems replaces the items',ITEMS),('LoadItems reads the disk on every unlock',ITEMS)],['session queries'])
p('C07','Counts, lists, filters and single items agree with the vault',
 'Listing returns exactly the items with the requested trashed state, the requested category (if any) and a title that contains the requested text (if any) regardless of upper and lower case, each once, ordered by category code and then by title. The count for a category and trashed state is the length of the list without text, and an item can be fetched by its identifier exactly under its own trashed state. The list command shows these items in this order with their identifiers, accepts every category name that the categories command shows (in any case, blanks around it ignored) and refuses all others.',
 ['inputs'],'all vaults, all categories, all search texts, both trashed states',
 'The tests check the number of results for a few filters on the sample vault; order, letter case outside ASCII, combinations of filters and the list command are not compared with an independent answer.',
 [ITEMS,ITS,C+'domain/itemcategory.go',CLI],[('FindByCategoryAndTitleAndTrashed, CountByCategoryAndTrashed, FindFirstByUidAndTrashed',ITEMS),('GetSimpleItems sorts',ITS),('FromName',C+'domain/itemcategory.go')],['results of count/list/get','rows of the list command'])
p('C08','overview hides every secret, details shows them all',
 'The overview command shows the category, title, times, trashed state, URL, section titles and field labels of the item, and the same fixed mask in place of every field value and of the notes: nothing on the terminal depends on what the values and notes are, not even their length. The details command shows the same with every field value and the notes in full. Both act on the item with the given identifier and the requested trashed state only, and say that it does not exist otherwise.',
 ['inputs'],'all items, with all values, notes and shapes of details, both commands, both trashed states',
 'The commands are not tested at all; secrecy is about every value, not a sample.',
 [CLI,COB],[('GetItemOverview prints the mask',CLI),('GetItemDetails prints the values',CLI)],['complete terminal output of overview and details'])
p('C09','The terminal interface reveals secrets only on demand',
 'In the terminal interface, field values and notes are on the screen only while the details of that item have been revealed with TAB; before the unlock, in the list of categories, in the list of items with its overview, after covering the item again with TAB, after going back, after moving to another item, after an error and after locking, no part of any field value or note is on the screen. Before the first unlock and after locking, no title, category count or other data of the vault is on the screen either.',
 ['histories','inputs'],'all sequences of keys, in all windows, for all vaults and terminal sizes',
 'The terminal interface has no tests; the statement is about every screen along every key sequence.',
 [G+'1passwidget.go',G+'itemswidget.go',G+'detailswidget.go'],[('update(overview) masks',G+'detailswidget.go'),('lock handlers clear the windows',G+'1passwidget.go')],['screen after every key'])
p('C10','The terminal interface shows and opens what it highlights',
 'The main window lists All, every category that has items in code order and Trashed (when there are any), each with the right count; opening the highlighted row lists exactly the items it counts, in list order, and the pane beside the list always describes the highlighted item. Revealing shows the complete details of the highlighted item, each newly shown item starts at its beginning, scrolling moves the text by one line or column, and every key leads to the window it is documented for.',
 ['histories','inputs'],'all sequences of keys for all vaults (including empty ones, without trash, with trash only, longer than the window) and terminal sizes',
 'The terminal interface has no tests; row and index can drift apart only along particular key sequences, sizes and vaults.',
 [G+'1passwidget.go',G+'itemswidget.go',G+'detailswidget.go','1pass-term/control/gocui/guicontrol.go'],[('currIdx and the cursor of the view move together',G+'1passwidget.go'),('showItems/showOverview/toggleDetails',G+'itemswidget.go')],['screen and highlighted row after every key'])
p('C11','An update installs a verified, complete release or changes nothing',
 'After the update command ends, in whatever way (success, any network fault, any contents of the release, a failing disk, or being killed at any moment), the installed application is either the old one, byte for byte and still executable, or the complete application contained in the downloaded archive whose MD5 equals the one in the published checksum file, and executable. Success is reported (exit status 0) only in the second case; a release whose checksum is missing, empty or different is never installed. A sound release is installed when nothing fails.',
 ['fault_sequences','crash_points','inputs'],'all releases and archives, all faults at every download, all points at which the process can be killed or an operation can fail',
 'The update tests do nothing without network, and with it they can only see that there is no newer release.',
 [UPS,UP],[('stages of Update',UPS),('ValidateChecksum before ReplaceBinary',UPS),('rename replaces the binary in one step',UP)],['bytes and mode of the installed application','exit status'])
p('C12','An update touches only its cache and the application',
 'During the update command, whatever the archive contains (absolute names, parent directories, links, directories, names of files the updater uses itself), files are created, changed or removed only inside the update cache directory, besides the application itself and the time of the last check. After a successful update the cache directory is gone, and what an earlier, interrupted update left in the cache never ends up in the installed application and never keeps a new update from succeeding.',
 ['inputs','fault_sequences'],'all archives and releases, all states an earlier update can have left behind',
 'No test extracts an archive with anything but the expected binary.',
 [UP,UPS],[('ExtractArchive checks the path of every entry',UP),('cache directory is removed and created first and removed last',UPS)],['all files of the user before and after'])
p('C13','Nothing is updated without consent and a newer release',
 'The update command changes the application only if the server offers a newer release and the user answers y (or Y); with any other answer, no answer, or without a newer release, no download takes place, the application and the cache stay as they are, and the command says so and exits with status 1. No other command ever downloads a release or changes the application.',
 ['inputs','histories'],'all answers, all releases offered, all commands',
 'The command and its question are not tested.',
 [CLI,UPS],[('question before Update',CLI),('Newer is checked again in Update',UPS)],['requests seen by the server','bytes of the application','exit status'])
p('C14','Newer means a greater version, compared number by number',
 'A release is offered exactly when its version is greater than the installed one comparing the numbers separated by dots from left to right (missing numbers count as zero), for any number of parts of up to 18 digits. Anything that is not a version made of numbers and dots is never offered.',
 ['inputs'],'all version tags',
 'The test compares the installed version with the one release that exists.',
 [UP],[('isNewer',UP)],['the release offered by update, the notice of other commands, the header of the terminal interface'])
p('C15','Update checks keep to their schedule and to the notification setting',
 'The commands categories, configure, list, overview and details (and the first-run dialog of any command) ask the update server exactly when notifications are enabled and either the period is 0, or the last check is unknown (never recorded, or unreadable), or at least as many whole days as configured lie between it and now; a newer release is then announced. The time of the last check is recorded exactly when a check was completed: never after a failed one and never without one. The update command always asks, and so does the terminal interface, which shows the result in its header; version never asks.',
 ['configurations','histories','fault_sequences'],'all periods, notification settings, recorded times, server answers and sequences of commands',
 'Without network the tests of the schedule cannot distinguish a check from none; periods, boundaries and failures are not covered.',
 [UPS,UP,CLI,G+'versionwidget.go'],[('ShouldCheck',UP),('CheckTimestamp after a completed check',UPS),('notification setting',CLI)],['requests seen by the server','the recorded time','output'])
p('C16','Saved settings are read back exactly',
 'Settings that were saved (default vault of any name, notifications on or off, timeout, period) are read back as exactly the same values by every later run; settings that are absent from the file have their documented defaults (no vault, notifications on, timeout 1, period 1), and saving keeps every other entry of the file as it was. An empty or missing file is the same as no settings.',
 ['inputs','histories'],'all values, all valid settings files including hand-edited ones, all sequences of saving and reading',
 'The tests save and read one set of values; names that YAML could read as something else, absent keys and additional entries are not covered.',
 [CONF,C+'service/configservice.go'],[('loadConfigFile/Save',CONF),('defaults in the getters',CONF)],['settings returned after a new start','the settings file'])
p('C17','The configuration dialog stores exactly what was answered',
 'Each answer line of the configuration dialog counts for its own question only, which shows the value that is kept otherwise: y/n answers are taken in either case, a vault path asked for after y is taken as typed, an empty one included (spaces inside kept, surrounding ones dropped), numbers are taken if they lie in the documented range (1 to 30 seconds, 0 to 365 days). With every other answer, also none at all, that setting keeps its previous value. The default vault changes only after y to its question, and the settings are saved once all questions are answered.',
 ['inputs'],'all answers to all questions, from all previous settings',
 'The dialog is not tested.',
 [CLI],[('Configure',CLI),('FromName',C+'domain/logicval.go')],['settings after the dialog','defaults shown in the questions'])
p('C18','Interrupting a save never loses the settings',
 'If saving the settings is interrupted at any moment (process killed, disk full, write error), the next run finds either the previous settings or the new ones, complete, and works; it never finds an empty, partial or unreadable file.',
 ['crash_points','fault_sequences'],'all points at which the process can be killed and all write operations that can fail, for all previous and new settings',
 'No test interrupts a save.',
 [CONF],[('new contents are written to a temporary file that then replaces the old one',CONF)],['settings found by the next run'])
p('C19','An invalid vault is refused before the password is asked for',
 'If the selected vault is not a directory holding a profile file (path missing, empty, a file, no profile, a profile that is a directory), list, overview, details and the terminal interface print an error that names the path, exit with status 1 and do not ask for a password; for a valid vault they always ask for it.',
 ['inputs'],'all paths and all directory contents',
 'The commands are not tested; the validation is tested on four fixed directories.',
 [VS,CLI,G+'gocui.go'],[('ValidateVault',VS)],['output and exit status before any password is entered'])
p('C20','Vaults are never modified and secrets never written to disk',
 'No command, key sequence, failure or interruption ever creates, changes or removes anything inside a vault. Apart from its settings file, the time of the last check and an update itself, the application writes no files at all, and no file it writes contains the master password, a field value, a note or a title.',
 ['histories','crash_points'],'all commands, key sequences, failures and interruptions, on all vaults',
 'No test compares the file system before and after.',
 [ITEMS,PROF,CONF,UP],[('vault files are only opened for reading',ITEMS)],['vault directory and all files of the user, before and after'])
p('C21','The vault given with -v wins, otherwise the configured one is used',
 'Every command that works on a vault opens the one given with -v or --vault if one is given, and otherwise the default vault of the settings as they are at that moment (including settings made in the first-run dialog of the same command); it never opens any other vault. Giving a vault does not change the settings.',
 ['histories','configurations'],'all combinations of settings, flags and commands',
 'Selection takes place in the commands, which are not tested.',
 [CLI,COB,'1pass-term/control/gocui/guicontrol.go'],[('choice of the vault in every command',CLI),('ValidateVault',"1pass-term/control/gocui/guicontrol.go")],['items and errors shown'])
p('C22','No answer of the update server breaks the application',
 'Whatever the update server does (refusing connections, error statuses, empty, truncated, malformed or unexpected answers of any shape), every other command and the terminal interface do the same as without an update check, with the same output (apart from a notice of a newer release) and the same exit status. The update command then says what is wrong or that there is no update and exits with status 1, without crashing.',
 ['fault_sequences','inputs'],'all answers and faults of the server, all commands',
 'Without network the update tests do nothing; malformed answers are not covered.',
 [UP,UPS,CLI,G+'versionwidget.go'],[('CheckForUpdate tolerates missing and unexpected values',UP),('errors of the check are ignored by other commands',CLI)],['output and exit status'])
p('C23','The first run asks for settings once, and only when there are none',
 'list, overview, details and the terminal interface start with the configuration dialog exactly when no settings are stored; afterwards they carry on with the command using the new settings. Once settings are stored, no command other than configure asks for them again, and categories and version never do.',
 ['histories'],'all sequences of commands from all states of the settings',
 'Neither the dialog nor the commands are tested.',
 [CLI,COB,CONF],[('FirstRun',CLI),('IsAvailable',CONF)],['output of the command, settings file'])
p('C24','The master password is never displayed',
 'Whatever is typed at a password prompt, right or wrong, in the command line or in the terminal interface, no character of it appears on the terminal, at the prompt or later; the terminal interface shows one mask character for each character typed (as far as the prompt is wide), and the command line shows nothing.',
 ['inputs','histories'],'all entries at all prompts',
 'Prompts are not tested.',
 [CLI,G+'passprompt.go',G+'1passwidget.go'],[('term.ReadPassword',CLI),('view mask',G+'passprompt.go')],['complete terminal output'])
p('C25','Runs of the application at the same time do not damage each other',
 'When several runs of the application of one user save settings at the same time, in whatever order their file operations happen and whichever of them are killed on the way, the settings found at every moment are complete and are either those from before or exactly those saved by one of the runs; a save that is not killed succeeds and takes effect at one moment of its run, and a run that only reads them never takes them for missing. When several updates run at the same time, the installed application is at every moment the one from before or a complete, verified and executable one of a run under way; a run that reports success has installed its own release, any other ends with an error message and status 1, and an update that runs alone afterwards succeeds.',
 ['schedules','crash_points'],'all interleavings of the file operations of several runs, with kills at any point',
 'Tests run one after the other in one process; the damage needs two processes that meet between two particular system calls.',
 [CONF,UPS,UP],[('replaceConfigFile: a temporary file of its own, then rename',CONF),('Update: a working directory of its own below the cache',UPS)],['settings file and installed application after every file operation of every run','exit status and output of every run'])
p('C26','The timeout setting bounds every wait for the update server',
 'Whenever the update server cannot be reached or falls silent, at whatever point (connecting, handshake, before or within an answer; list of releases, archive, checksum), a command waits for it for about the number of seconds the timeout setting says at that moment (1 without settings) and then carries on as after any failed check: it does its own work; the update command says that it failed, ends with status 1 and installs nothing. A server that is slow but never silent for that long is waited for, however long the whole answer takes, and its answer is used. The terminal interface does not wait: it is usable at once and shows the outcome of the check when there is one.',
 ['schedules','histories'],'all timeouts, commands, points and lengths of silence of the server',
 'Tests talk to no server, and waiting for ever needs one that accepts and then stays silent at a particular point of a particular exchange.',
 [UP],[('httpClient: timeout for connecting and for every read',UP),('Update and checkForUpdate use the timeout of the settings',C+'facade/updatefacade.go')],['how long every run takes, its output, status and what it installed','the requests the server gets','header of the terminal interface over time'])
p('C27','The terminal is given back as it was found',
 'However a run of the application on a terminal ends (any command done, refused or failed; the terminal interface left from any window, or ended because the terminal is or becomes too small for its windows; the interrupt key pressed at a question or at the password prompt, which always ends the run), the terminal has afterwards exactly the modes it had before (echo, line editing, special characters and all others), the cursor is visible, the screen and key modes of the terminal interface are left, and the screen from before is there again, with nothing of the vault added by the terminal interface. In between, the terminal is silent only while a password is asked for and raw only while windows are shown; the settings are not saved by a dialog that is interrupted.',
 ['inputs','histories'],'all terminals (modes, sizes), commands, places and ways to end',
 'Tests have no terminal; the damage shows only in the state of the terminal after the process is gone, and needs an interrupt at a prompt or an error inside the terminal interface.',
 ['1pass-term/control/cobra/clicontrol.go','1pass-app/gui/gocui.go'],[('readPassword: restores the modes when interrupted','1pass-term/control/cobra/clicontrol.go'),('Run: the terminal interface is closed before an error ends it','1pass-app/gui/gocui.go')],['modes (termios) of the terminal before, while waiting and after','output interpreted by a terminal emulator: screens, cursor, modes','settings file'])
p('C28','A damaged vault file is reported, never passed over',
 'If the profile of a vault, or one of its band files, cannot be read, is cut off or overwritten, or does not have the form of a file of a vault (not an object, an entry that is not one, a value missing or of another type) all the time from the beginning of a run that opens the vault (in the terminal interface, for the band files: from when the vault was locked last) until the password is entered, the vault is not opened: the run says so and ends with an error status (the terminal interface may say so and stay locked instead), without a crash and without showing any item, so that a vault never looks complete while items are missing. If every file was whole, the right password opens the vault with all of its items, whatever was damaged before and has been mended.',
 ['inputs','histories'],'all vaults, damages of their files, and histories of damage, mending and attempts',
 'Tests read one sound vault; damage comes in unboundedly many forms, at any file, before or while the application runs.',
 ['1pass-parse/repo/file/itemrepo.go','1pass-parse/repo/file/profilerepo.go'],[('LoadItems: every band file, every entry','1pass-parse/repo/file/itemrepo.go'),('LoadProfile','1pass-parse/repo/file/profilerepo.go'),('ValidateVault',C+'service/vaultservice.go')],['exit status and messages of the commands','items in lists, overviews and details','windows and counts of the terminal interface'])
p('C29','An item with unusual contents harms nothing else',
 'Whatever the authentic contents of some items of a vault are (values missing, empty, null or of another type than usual, lists and objects in place of texts, unknown kinds of fields, sections and fields that are not objects, overviews or details that are not an object or not JSON at all), the right password opens the vault with all of its items: each of them is listed (with its title, if that is a text), counted in its category, and can be shown; what is unusual about one item changes nothing about what is shown of the other ones; a value of the item that is itself as usual (a text with a name, in a form field, a section field, an address or the notes) is shown in its details all the same; the overview shows no value of the details; and nothing crashes.',
 ['inputs','histories'],'all vaults, all contents of the items',
 'Tests read the items of one sound vault; the application meets whatever all versions of another application, imports and other writers have put into a vault, and one item is enough to make the whole vault unusable.',
 [C+'service/itemservice.go',C+'domain/datatype.go','1pass-parse/repo/file/itemrepo.go'],[('decodeDetails, parse*: contents that are not as usual',C+'service/itemservice.go'),('ParseValue, parseAddress',C+'domain/datatype.go')],['items in lists, overviews and details','windows and counts of the terminal interface','exit status'])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.abspath(__file__)),'properties.jsonl'),'w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
print(len(P))
