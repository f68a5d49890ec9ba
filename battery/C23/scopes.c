// mode: repl
// flags: -s scopes.script
// filter: ^(?!.*0x).+$
badg	;
ins	;
barr	;
globu	;
dep	;
prin	("%d\n", badg	);
bump()->fi	;
bum		ped;
both.f	;
(*bump()).sec	;
bumped;
