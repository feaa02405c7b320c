"""A stand-in for MAGIC: tclsh interprets the script, every command of MAGIC is written down (`<d>/magic_cmds`, one per line, words in hex)."""
import os
import shutil

TCL = r'''#!/usr/bin/tclsh
set standin_d {%(d)s}
proc standin_append {name line} { global standin_d; set f [open "$standin_d/$name" a]; puts $f $line; close $f }
proc standin_hex {w} { binary scan [encoding convertto utf-8 $w] H* h; return "x$h" }
proc standin_rec {words} { set l {}; foreach w $words { lappend l [standin_hex $w] }; standin_append magic_cmds [join $l] }
standin_append calls magic
standin_rec [concat ARGV $argv]
puts "Magic 8.3 revision 500"
array set standin_c {TAG 1 MAG ok LATE {}}
if {[file exists "$standin_d/control"]} { set f [open "$standin_d/control"]
  foreach l [split [read $f] "\n"] { if {[regexp {^(\w+)=(.*)$} $l - k v]} { set standin_c($k) $v } }; close $f }
if {$standin_c(MAG) eq "none"} { puts "Error: no such cell"; exit 0 }
proc standin_end {} { global standin_c; if {$standin_c(MAG) eq "exit"} { exit 1 }; if {$standin_c(MAG) eq "kill"} { exec kill -9 [pid] }; exit 0 }
proc load {args} { standin_rec [concat [list load] $args]; global standin_cell; set standin_cell [lindex $args 0] }
proc gds {args} { standin_rec [concat [list gds] $args]; global standin_d
  if {[lindex $args 0] eq "read"} { file copy -force -- [lindex $args 1] "$standin_d/magic_input" } }
proc extract {args} { standin_rec [concat [list extract] $args]; global standin_dir; if {[lindex $args 0] eq "path"} { set standin_dir [lindex $args 1] } }
proc quit {args} { standin_rec [concat [list quit] $args]; standin_end }
proc ext2spice {args} { standin_rec [concat [list ext2spice] $args]; global standin_c standin_dir
  if {[lsearch -exact $args -o] < 0} return
  set t $standin_c(TAG)
  if {$standin_c(LATE) ne ""} { close stdout; close stderr; after ${standin_c(LATE)}00 }
  set f [open [lindex $args [expr [lsearch -exact $args -o] + 1]] w]; puts $f ".subckt TOP\nC0 TAG$t VSUBS 1f\n.ends"; close $f
  set f [open "$standin_dir/TOP.ext" w]
  puts $f "timestamp 1\nversion 8.3\ntech sky130A\nport \"TAG$t\" 1 0 0 100 100 m1\nnode \"TAG$t\" 0 0 0 0 m1 0 0 0 0"; close $f
  if {$t %% 2} { file copy -force "$standin_dir/TOP.ext" "$standin_dir/SUB.ext" }
  if {$t %% 3 == 1} { set f [open "$standin_dir/TOP.res.ext" w]; puts $f "rnode \"TAG$t\" 0 0 0 0 0\nrnode \"TAG$t.n1\" 0 0 50 0 0\nresist \"TAG$t\" \"TAG$t.n1\" 5"; close $f } }
proc unknown {args} { standin_rec $args }
if {[catch {source -encoding utf-8 [lindex $argv end]} standin_err]} { puts "Error: $standin_err" }
standin_end
'''


def write(d, name='magic'):
    if not shutil.which('tclsh'):
        from vlib import MachineryError
        raise MachineryError('tclsh is needed')
    p = os.path.join(d, name)
    with open(p, 'w') as f:
        f.write(TCL % dict(d=d))
    os.chmod(p, 0o755)


def commands(d):
    """commands since `magic_cmds` was last removed, as lists of words; the first is ARGV ..."""
    p = os.path.join(d, 'magic_cmds')
    if not os.path.exists(p):
        return []
    return [[bytes.fromhex(w[1:]).decode('utf-8', 'replace') for w in ln.split()] for ln in open(p)]
