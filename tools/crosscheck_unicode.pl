#!/usr/bin/perl
# Independent validation of the specification's character data against perl's UCD
# (Unicode 15.0), for code points already assigned in Unicode 14.0/13.0.
# Prints every code point where they differ (grouped by kind).
use strict; use JSON::PP; no warnings;
my $d = shift; sub load { open my $f, '<', "$d/$_[0]" or die; local $/; decode_json(<$f>) }
my %map = (Any=>'Other', RegionalIndicator=>'Regional_Indicator', SpacingMark=>'SpacingMark');
my (%gcb); my @g;
for my $r (@{load('gcb.json')}) { $g[$_]=$r->[2] for $r->[0]..$r->[1]; }
my @wide; for my $r (@{load('wide14.json')}) { $wide[$_]=1 for $r->[0]..$r->[1]; }
my @ep; for my $r (@{load('emojipres.json')}) { $ep[$_]=1 for $r->[0]..$r->[1]; }
my $wt = load('widthtables.json');
my %wt; for my $k (keys %$wt) { for my $r (@{$wt->{$k}}) { $wt{$k}[$_]=1 for $r->[0]..$r->[1]; } }
my @classes = qw(CR LF Control Extend Regional_Indicator SpacingMark L V T LV LVT ZWJ Prepend);
my %diff;
for my $c (0..0x10FFFF) {
  my $ch = chr($c);
  my $pres = $ch =~ /\p{Present_In=14.0}/;
  my $mine = $map{$g[$c]} // $g[$c];
  my $theirs = 'Other';
  $theirs = 'ExtendedPictographic' if $ch =~ /\p{ExtPict}/;
  for my $k (@classes) { if ($ch =~ /\p{GCB=$k}/) { $theirs=$k; last } }
  push @{$diff{"gcb $mine vs $theirs".($pres?'':' (unassigned in 14)')}}, $c if $mine ne $theirs;
  my $w = ($ch =~ /\p{EA=W}|\p{EA=F}/)?1:0;
  push @{$diff{"wide14 ".($wide[$c]||0)." vs $w".($pres?'':' (unassigned in 14)')}}, $c if ($wide[$c]||0) != $w;
  my $p = ($ch =~ /\p{EPres}/)?1:0;
  push @{$diff{"emojipres ".($ep[$c]||0)." vs $p".($pres?'':' (unassigned in 14)')}}, $c if ($ep[$c]||0) != $p;
  my $p13 = $ch =~ /\p{Present_In=13.0}/;
  my $s=$p13?'':' (unassigned in 13)';
  push @{$diff{"doublewidth ".($wt{doublewidth}[$c]||0)." vs $w$s"}}, $c if ($wt{doublewidth}[$c]||0) != $w;
  my $a = ($ch =~ /\p{EA=A}/)?1:0; push @{$diff{"ambiguous ".($wt{ambiguous}[$c]||0)." vs $a$s"}}, $c if ($wt{ambiguous}[$c]||0) != $a;
  my $n = ($ch =~ /\p{EA=Na}/)?1:0; push @{$diff{"narrow ".($wt{narrow}[$c]||0)." vs $n$s"}}, $c if ($wt{narrow}[$c]||0) != $n;
}
for my $k (sort keys %diff) { my @l=@{$diff{$k}}; printf "%s: %d: %s\n",$k,scalar @l, join ' ', map {sprintf '%04X',$_} @l[0..($#l<11?$#l:11)]; }
