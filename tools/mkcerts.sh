#!/bin/bash
# Writes the certificates the TLS checks use (run once; the result is committed).
set -e
cd "$(dirname "$0")/../mc/certs"
key() { openssl ecparam -name prime256v1 -genkey -noout -out "$1.key" 2>/dev/null; }
ca() { key "$1"; openssl req -x509 -new -key "$1.key" -days 36500 -subj "/CN=$2" -addext "basicConstraints=critical,CA:TRUE" -addext "keyUsage=critical,keyCertSign,cRLSign" -out "$1.crt"; }
leaf() { # name ca san-or-empty usage days
  key "$1"; openssl req -new -key "$1.key" -subj "/CN=$1" -out x.csr
  { echo "basicConstraints=CA:FALSE"; echo "keyUsage=digitalSignature"; echo "extendedKeyUsage=$4"; echo "authorityKeyIdentifier=keyid"; echo "subjectKeyIdentifier=hash"; [ -z "$3" ] || echo "subjectAltName=$3"; } > x.ext
  openssl x509 -req -in x.csr -CA "$2.crt" -CAkey "$2.key" -CAcreateserial $5 -extfile x.ext -out "$1.crt" 2>/dev/null
  cat "$1.crt" "$1.key" > "$1.pem"; rm -f x.csr x.ext "$2.srl"; }
# name ca san usage: valid in 2020 only
old() {
  key "$1"; openssl req -new -key "$1.key" -subj "/CN=$1" -out x.csr
  mkdir x.d; : > x.d/index; echo 01 > x.d/serial
  { echo "[ca]"; echo "default_ca=d"; echo "[d]"; echo "database=x.d/index"; echo "serial=x.d/serial"; echo "new_certs_dir=x.d"; echo "default_md=sha256"; echo "policy=p"; echo "[p]"; echo "commonName=supplied"; echo "[e]"; echo "basicConstraints=CA:FALSE"; echo "extendedKeyUsage=$4"; [ -z "$3" ] || echo "subjectAltName=$3"; } > x.cnf
  openssl ca -batch -config x.cnf -cert "$2.crt" -keyfile "$2.key" -in x.csr -startdate 20200101000000Z -enddate 20210101000000Z -extensions e -out "$1.crt" -notext 2>/dev/null
  cat "$1.crt" "$1.key" > "$1.pem"; rm -rf x.csr x.cnf x.d
}
L="-days 36500"
ca ca "Check CA"; ca other "Other CA"
N="DNS:localhost,IP:127.0.0.1,IP:::1,IP:0.0.0.0,IP:::,DNS:sock"
leaf good ca "$N" serverAuth "$L"
leaf misnamed ca "DNS:elsewhere,IP:192.0.2.1" serverAuth "$L"
leaf named ca "DNS:localhost" serverAuth "$L"
leaf numbered ca "IP:127.0.0.1,IP:::1" serverAuth "$L"
leaf foreign other "$N" serverAuth "$L"
old expired ca "$N" serverAuth
leaf client ca "" clientAuth "$L"
leaf clientforeign other "" clientAuth "$L"
leaf clientserver ca "" serverAuth "$L"
old clientexpired ca "" clientAuth
key self; openssl req -x509 -new -key self.key -days 36500 -subj "/CN=self" -addext "subjectAltName=$N" -out self.crt; cat self.crt self.key > self.pem
openssl ec -in client.key -aes256 -passout pass:secret -out client-enc.key 2>/dev/null
openssl ec -in good.key -aes256 -passout pass:secret -out good-enc.key 2>/dev/null
rm -rf cadir; mkdir cadir; cp ca.crt cadir/"$(openssl x509 -in ca.crt -noout -subject_hash)".0
rm -f other.key ca.key
chmod 644 *.key *.pem
