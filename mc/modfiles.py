"""model files that use every part of the language the properties speak about"""

FILES = {
    'small': "var x; varexo e; parameters a; a = 0.5; model; x = a*x(-1) + e; end;",
    'two': """
var x, y;
varexo e u;
parameters a b c;
a = 0.9; b = a/2; h = 3*b;
c = h - 1;
model;
 x = a*x(-1) + e;
 [name = 'second'] y = b*y(+1) - c*x + u;
end;
initval; x = 0.5; y = 2*a; end;
shocks; var e = 0.25; var u; stderr 0.3; corr e, u = -0.4; end;
""",
    'local': """
parameters a, b; varexo e; var k z;
a = 0.3; b = 0.8;
model(linear);
 # g = a + b;
 # q = g*a;
 k(+1) - g*k = q*z;
 z = exp(b)*z(-1)/4 + e^2;
end;
histval; k = 1; end;
endval; z = b; k = 3 - a; end;
""",
    'noshock': """
var x; var y;
parameters r; r = 1.5;
model; x - r*x(+1); y = x(-1) + log(r)*y; end;
shocks; end;
initval; y = -1; end;
""",
    'cov': """
varexo e1, e2, e3; var w v;
s = 0.2;
parameters p;
p = s^2;
model; w = p*w(-1) - (e1 + e2); v = w(-1)*v + sqrt(p)*e3; end;
shocks;
 var e1, e2 = 0.1; var e3 = p; var e1 = 2*s;
end;
""",
}
