#!/usr/bin/env python3
"""Writes KNOWN_FINDINGS.txt from the fix commits of /repo."""
import subprocess
M = [('load the profile of every','C06','a second vault was opened with the profile (and so the password) of the first vault validated in the process'),
 ('store the items of the vault','C06','unlocking another (or a changed) vault without locking first kept showing the items of the earlier one'),
 ('empty band file','C02','an empty band file made unlocking crash'),
 ('glob characters','C02','vaults whose path holds glob characters ([ * ? \\) were shown without items'),
 ('real date of date','C03','every date field was shown as 1970-01-01'),
 ('form fields of items','C03','form fields of items that also have sections were not shown'),
 ('check the item keys','C04','altered item keys were used without checking their MAC; short ones crashed the application'),
 ('compare versions','C14','1.10.0 was not newer than 1.9.0; versions were compared as text'),
 ('survive unexpected answers','C22','unexpected JSON answers of the update server crashed every command'),
 ('empty checksum','C11','an empty checksum file crashed the update command'),
 ('outside of the update cache','C12','archive entries with .. or absolute names were written outside of the cache'),
 ('executable after an update','C11','the installed application was not executable when the archive entry had no execute permission'),
 ('replacing its checksum file','C11','archive entries could overwrite the checksum file and the archive they were checked with'),
 ('empty configuration file','C16','an empty settings file made saving and the dialog crash'),
 ('half-written','C18','the settings were truncated and then written in place: an interruption lost them'),
 ('line by line','C17','an answer with blanks was taken for several answers; the rest of the line answered the next questions'),
 ('last category of vaults','C10','in vaults without trashed items the last category could not be opened'),
 ('after locking a scrolled','C10','after locking a scrolled list the highlighted row was not the selected one'),
 ('scrolling in both directions','C10','the next item was shown from the middle after scrolling in both directions'),
 ('exactly as it was entered','C01','the terminal interface removed blanks around the password, so that such passwords could not be used'),
 ('main loop','C15','the result of the update check was drawn from another goroutine and could be lost'),
 ('settings at the same time','C25','saves at the same time shared one temporary file: a half-written one could take the place of the settings, or a save failed'),
 ('install each other','C25','updates at the same time shared their files: one could install what the other had not verified yet, or only half written'),
 ('carriage returns','C10','the text before a carriage return in a value or note was not shown in the terminal interface'),
 ('silent update server','C26','an update server that accepted the connection and then stayed silent held every command up for ever: the timeout was for connecting only'),
 ('wider than the prompt','C01','the terminal interface put a blank into passwords of more than 58 characters, so that such vaults could not be opened'),
 ('ends the terminal interface','C27','an error inside the terminal interface (a terminal that is too small, a vault that is damaged or gone when it is unlocked again) left the terminal raw and on the alternate screen'),
 ('password prompt is interrupted','C27','interrupting the password prompt left the terminal without echo'),
 ('damaged instead of crashing','C28','profiles and band files cut off to some bytes or with values missing or of another type crashed the application, and a band holding null made the items of the bands before it disappear silently'),
 ('unusual contents','C29','items with values missing, null or of another type (an address that is not an object, a field without a name, a title that is a number) crashed the application, so that the whole vault could not be opened')]
log = [l.split(' ', 1) for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()]
out = ['# Genuine defects of MashMB/1pass. "fixed:" entries suppress nothing.',
       '# An unrepaired one would be listed as: finding: property=<id> match=<regular expression on the violation> <what fails>']
for key, p, text in M:
    h = [a for a, b in log if b.startswith('fix:') and key in b]
    assert len(h) == 1, (key, h)
    out.append('fixed: property=%s %s %s' % (p, h[0], text))
n = len([1 for a, b in log if b.startswith('fix:')])
assert n == len(M), (n, len(M))
open('/verif/KNOWN_FINDINGS.txt', 'w').write('\n'.join(out) + '\n')
