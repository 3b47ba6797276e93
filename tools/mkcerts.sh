#!/bin/bash
# Regenerates the committed test certificates (not run by any check).
set -e
D=$1; mkdir -p "$D"; cd "$D"; T=$(mktemp -d)
cnf() { # dir extensions
cat > $T/ca.cnf <<C
[ca]
default_ca=d
[d]
new_certs_dir=$T
database=$T/index
serial=$T/serial
default_md=sha256
policy=p
email_in_dn=no
unique_subject=no
[p]
commonName=supplied
[x]
$1
C
: > $T/index; echo unique_subject = no > $T/index.attr; openssl rand -hex 8 > $T/serial; }
key() { openssl ecparam -name prime256v1 -genkey -noout | openssl pkcs8 -topk8 -nocrypt -out $1.key; }
CAX=$'basicConstraints=critical,CA:TRUE\nkeyUsage=critical,keyCertSign,cRLSign\nsubjectKeyIdentifier=hash'
selfsign() { key $1; openssl req -new -key $1.key -subj "/CN=$2" -out $T/r; cnf "$3"; openssl ca -batch -notext -config $T/ca.cnf -extensions x -selfsign -keyfile $1.key -in $T/r -out $1.pem -startdate 20000101000000Z -enddate 21200101000000Z 2>/dev/null; }
leaf() { key $1; openssl req -new -key $1.key -subj "/CN=$2" -out $T/r; cnf $'basicConstraints=CA:FALSE\nkeyUsage=digitalSignature\nextendedKeyUsage='$4$'\nsubjectAltName=DNS:localhost,IP:127.0.0.1'; openssl ca -batch -notext -config $T/ca.cnf -extensions x -cert $3.pem -keyfile $3.key -in $T/r -out $1.pem -startdate 20000101000000Z -enddate ${5:-21200101000000Z} 2>/dev/null; }
selfsign ca "Test CA" "$CAX"; selfsign otherca "Other CA" "$CAX"; selfsign imposter "Test CA" "$CAX"
leaf server localhost ca serverAuth; leaf client alice ca clientAuth; leaf stranger mallory otherca clientAuth
leaf forged alice imposter clientAuth; leaf wrongeku alice ca serverAuth; leaf expired old ca clientAuth 20010101000000Z
selfsign selfs alice $'basicConstraints=CA:FALSE\nextendedKeyUsage=clientAuth'
rm -rf "$T" ca.key otherca.key imposter.key
