use strict; use warnings; no warnings 'utf8';
# cp;age;gcb;ep;eaw;emojipres;name-combining
my @gcb=qw(CN CR LF EX ZWJ RI PP SM L V T LV LVT);
for my $cp (0..0x10FFFF){ my $c=chr($cp);
 my $g='XX'; 
 if($c=~/\p{GCB=CN}/){$g='Control'}elsif($c=~/\p{GCB=CR}/){$g='CR'}elsif($c=~/\p{GCB=LF}/){$g='LF'}elsif($c=~/\p{GCB=EX}/){$g='Extend'}elsif($c=~/\p{GCB=ZWJ}/){$g='ZWJ'}elsif($c=~/\p{GCB=RI}/){$g='RegionalIndicator'}elsif($c=~/\p{GCB=PP}/){$g='Prepend'}elsif($c=~/\p{GCB=SM}/){$g='SpacingMark'}elsif($c=~/\p{GCB=L}/){$g='L'}elsif($c=~/\p{GCB=V}/){$g='V'}elsif($c=~/\p{GCB=T}/){$g='T'}elsif($c=~/\p{GCB=LV}/){$g='LV'}elsif($c=~/\p{GCB=LVT}/){$g='LVT'}
 if($g eq 'XX' && $c=~/\p{ExtPict}/){$g='ExtendedPictographic'}
 my $e = $c=~/\p{Ea=W}/?'W':$c=~/\p{Ea=F}/?'F':$c=~/\p{Ea=A}/?'A':$c=~/\p{Ea=Na}/?'Na':$c=~/\p{Ea=H}/?'H':'N';
 my $p = $c=~/\p{EPres}/?1:0;
 my $xp= $c=~/\p{ExtPict}/?1:0;
 my $em= $c=~/\p{Emoji}/?1:0;
 my $i13=$c=~/\p{In=13.0}/?1:0; my $i14=$c=~/\p{In=14.0}/?1:0;
 print "$g $e $p $xp $i13 $i14\n";
}
