import subprocess
log=subprocess.run(['git','-C','/repo','log','--format=%h %s','5b7cfc9..HEAD'],capture_output=True,text=True).stdout.strip().split('\n')
m=[('alternatives of EMBEDDED PDV must','C18'),('tells alternatives apart','C18'),('do not end constructed strings','C11'),('headers of indefinite length','C04'),('position of the object','C23'),('taken for OPTIONAL','C17'),('recognised by class','C17'),('written with indefinite length','C07'),('refused values of derived enumerations','C29'),('absent optional values have','C07'),('explicitly tagged absent optional','C07'),('aliases are constructed if','C18'),('AnySequence and AnySet are','C16'),('constraints of derived structs','C17'),('apply to the inner header','C16'),('mantissa compensates','C15'),('datetime but without std','C27'),('as_any_str and as_any_string','C28'),('Any::relative_oid','C28'),("identification of an EMBEDDED","C18"),("EMBEDDED PDV is constructed","C09"),("tagged TaggedParser values","C16"),("superfluous octets like positive","C10"),("signs in the text of an object","C13"),("identifiers without components","C13"),("iter_elements follows","C19"),("SequenceIteratorInput checks","C19"),("UtcTime::timestamp","C14"),("text of an ASN1DateTime","C14"),('additions of lengths','C04'),('SetOf and BTreeSet','C08'),('NR1 REAL','C15'),('months and days','C14'),('UTCTime with an offset','C14'),('special values in decimal','C15'),('built from floats','C15'),('minimal number of octets','C08'),('components out of range','C14'),('same instant in UTC','C14'),('decimal point but no digits','C14'),('fraction of a GeneralizedTime','C14'),('sign of time zone','C14'),('all finite REAL','C15'),('exponents are signed','C15'),('large exponents','C15'),('mantissa is unsigned','C15'),('base 8 or 16 must not','C01'),('long form of REAL','C15'),('to_der_len','C07'),('from_const_array','C10'),('int! macro','C10'),('indefinite-length sequences have','C07'),('length of tagged fields','C07'),('absent optional values','C07'),('64 KiB','C04'),('infinite recursion','C01'),('optional objects with indefinite','C03'),('derived aliases','C09'),('derived SEQUENCE and SET','C25'),('TaggedParser must reject','C16'),('SEQUENCE and SET decoders must','C25'),('last segment','C11'),('empty slice or an unaligned','C11'),('unused bits of a BIT STRING','C11'),('unused bits are zero','C09'),('empty segments','C11'),('UniversalString contents','C07'),('odd number','C12'),('segments of constructed BMPString','C12'),('INTEGER objects without','C10'),('empty BOOLEAN','C01'),('relative OID is not a prefix','C13'),('first two components','C13'),('RELATIVE-OID objects','C13'),('segments of a constructed string','C11'),('two zero octets','C05'),('equal headers','C23'),('32 bits','C04'),('continuation parsers reject primitive','C25')]
out=[]
for l in log:
    h,s=l.split(' ',1)
    c=[p for k,p in m if k in s]
    assert c,(s,c)
    out.append(f"fixed: property={c[0]} {h} {s[5:]}")
head='''# Findings on the current tree. Format: finding: property=<id> sig=<signature> ; <what fails>
# In a signature `*` stands for any run of characters other than '/'. Signatures are those printed by the monitors.
finding: property=C08 sig=set-order/AnySet ; AnySet writes its elements in the iteration order of a hash set, not the order DER prescribes (e.g. 310606001300ce00)
finding: property=C08 sig=set-order/HashSet<u32> ; HashSet is written in iteration order, not in the order DER prescribes (the crate's own test compares the octets with the iteration order)
finding: property=C08 sig=set-order/HashSet<Oid> ; HashSet is written in iteration order, not in the order DER prescribes
finding: property=C08 sig=default-value-encoded/SDef ; a derived SEQUENCE writes components equal to their default value (e.g. 3003020101)
finding: property=C08 sig=default-value-encoded/SExpDef ; a derived SEQUENCE writes explicitly tagged components equal to their default value
finding: property=C08 sig=default-value-encoded/SImpDef ; a derived SEQUENCE writes implicitly tagged components equal to their default value
finding: property=C08 sig=default-value-encoded/TTag ; a derived SET writes components equal to their default value
finding: property=C08 sig=decimal-form/Real ; decimal REAL values are written as digits E exponent, without the decimal point of NR3 that DER prescribes (pinned by tests/to_der.rs)
finding: property=C08 sig=decimal-form/f32 ; as for Real
finding: property=C08 sig=decimal-form/f64 ; as for Real
finding: property=C08 sig=real-encoding-base/Real ; a REAL decoded from base 8 or 16 is written in that base again, with scale factors, where DER prescribes base 2 (pinned by tests/to_der.rs)
finding: property=C09 sig=tolerated:der-nonminimal-length/*/* ; lengths in more octets than necessary are accepted in DER (pinned by tests/krb5.rs); no decoder rejects them
finding: property=C09 sig=tolerated:der-nonminimal-tag/*/* ; tag numbers in more octets than necessary are accepted in DER; no decoder rejects them
finding: property=C09 sig=tolerated:der-utctime-no-seconds/UtcTime/* ; UTCTime without seconds is accepted in DER (pinned by tests)
finding: property=C09 sig=tolerated:der-utctime-offset/UtcTime/* ; UTCTime with an offset is accepted in DER (pinned by tests)
finding: property=C09 sig=tolerated:der-gentime-no-seconds/GeneralizedTime/* ; GeneralizedTime without seconds is accepted in DER
finding: property=C09 sig=tolerated:der-gentime-trailing-zero/GeneralizedTime/* ; GeneralizedTime with trailing zeros in its fraction is accepted in DER
'''
rows=[]
for t in ['Enumerated','ApplicationImplicit<Integer,6>','TaggedImplicit<u32,1>','TaggedImplicit<Vec<u8>,4>','TaggedImplicit<SetOf<u32>,9>','TaggedImplicit<BTreeSet<u32>,10>']:
    why='from_der of ENUMERATED accepts superfluous octets (pinned by tests/der.rs)' if t=='Enumerated' else 'from_der of implicitly tagged values does not check the DER constraints of the inner value (the bound is missing from its signature)'
    for p in ['C09','C10']+([] if t=='Enumerated' else ['C16']):
        rows.append(f"finding: property={p} sig=accepts:der-int-nonminimal/{t}/from_der ; {why}")
    rows.append(f"finding: property=C21 sig=disagree/{t}/parse_der/from_der ; {why}")
for p in ['C09','C10']:
    rows.append(f"finding: property={p} sig=accepts:der-int-nonminimal/Enumerated/check_constraints+try_from(Any) ; the DER constraints of ENUMERATED are those from_der applies (pinned by tests/der.rs)")
rows.append("finding: property=C21 sig=disagree/Enumerated/parse_der/check_constraints+try_from(Any) ; the DER constraints of ENUMERATED are those from_der applies (pinned by tests/der.rs)")
t='TaggedImplicit<OctetString,300>'
for p in ['C09','C11','C16']:
    rows.append(f"finding: property={p} sig=accepts:der-constructed-string/{t}/from_der ; from_der of implicitly tagged values does not check the DER constraints of the inner value")
rows.append(f"finding: property=C21 sig=disagree/{t}/parse_der/from_der ; from_der of implicitly tagged values does not check the DER constraints of the inner value")
rows.append("finding: property=C25 sig=accepts:class/*/* ; untagged types compare only the tag number: an object with the right number and another class (e.g. 4400 as OCTET STRING) is accepted by every entry point; wrong classes of tagged types are reported under another signature")
open('/verif/known_findings.txt','w').write(head+'\n'.join(rows)+'\n\n# Defects repaired in /repo\n'+'\n'.join(out)+'\n')
