
#define X 1
static int
a (const unsigned // x
long	long  foo , const volatile long * const /* x */
a )
{ const
/*
 * x
 *  y
 */
char i = /* x */
0x1p-3 ;

while(some_long_identifier [ b] <
~* + & /* x */ b	< ptr [

	i
* "str" * THE_CONSTANT
/* x */
== some_long_identifier]	> b
// x
// y
-> a >>~ sizeof /* x */ i // x
- i -> a(foo,  "a\"b" ,a )!= b[ ptr] ) {
if(( foo("a\"b") ))
return;
else
break;
for (* some_long_identifier %= a . ptr || foo /* x */
? ptr :

	"a\"b" | i(* 42) /* a " ' */ ?	/* if (x) { */
"/* no */" : '\'' > b?  some_long_identifier? a : 1 :~x1 - a(THE_CONSTANT, a )+ "a\"b" < // x
THE_CONSTANT;;i ++) {


x1(a -> foo
// x
// y
, ~~	( // x
enum foo /* x */
)++ a,sizeof (int const)% THE_CONSTANT + 1e+5?
i ++ :~&
// x
// y
'\'' ) ;

/* clang-format off */

#ifdef X
a -> foo >>= a == i  ;

#else
do{}
/*
 * x
 *  y
 */
while(b ^  a);

#endif
if( &
i ->
// x
// y
a[++

	foo].	THE_CONSTANT){
}

/* clang-format on */
x1
/* x */
>>= + & "str"

	>( ptr
// x
// y
);

}
}

return ({if ( some_long_identifier
-> i * b){
} else {

#ifdef X
foo(1UL,ptr);



#else
return i;

#endif
if(*(long * /* x */ ) (uint32_t)--
/* x */
foo) {
if(THE_CONSTANT){


ptr
(foo);
if(ptr){int
// x
// y
* * THE_CONSTANT;
x1();
a( )
/*
 * x
 *  y
 */
;
}
/*
 * x
 *  y
 */
else {
some_long_identifier(
) ;
i( // x
);
}
}
i();
}
THE_CONSTANT(	);
}
} /* x */ )
/* x */
;
b();
}

