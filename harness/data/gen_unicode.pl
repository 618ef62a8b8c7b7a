use strict; no warnings;
my @o; 
for my $c (0..0x10FFFF) {
  if ($c>=0xD800 && $c<=0xDFFF) { push @o, "N0"; next }
  my $ch=chr($c);
  my $w = $ch =~ /\p{East_Asian_Width=W}/ ? 'W' : $ch =~ /\p{East_Asian_Width=F}/ ? 'F' : $ch =~ /\p{East_Asian_Width=A}/ ? 'A' : $ch =~ /\p{East_Asian_Width=Na}/ ? 'n' : $ch =~ /\p{East_Asian_Width=H}/ ? 'H' : 'N';
  push @o, $w.($ch =~ /\p{Extended_Pictographic}/ ? 1:0);
}
print join("\n",@o),"\n";
