#!/bin/bash
# Makes the certificates in sim/data that C29's simulated servers present. Run once, by hand.
set -e
out=$(cd "$(dirname "$0")/../sim/data" && pwd)
w=$(mktemp -d)
cd "$w"
hosts="DNS:localhost,DNS:db-src.example,DNS:db-dst.example,DNS:my-db.example"
mkca() {
  mkdir "$1"; touch "$1/index.txt"; echo 01 > "$1/serial"
  cat > "$1/cnf" <<C
[ca]
default_ca = d
[d]
dir = $w/$1
database = $w/$1/index.txt
serial = $w/$1/serial
new_certs_dir = $w/$1
default_md = sha256
policy = p
copy_extensions = copy
unique_subject = no
[p]
commonName = supplied
C
  openssl ecparam -name prime256v1 -genkey -noout -out "$1/key.pem"
  openssl req -new -key "$1/key.pem" -subj "/CN=$1" -addext basicConstraints=critical,CA:TRUE \
    -addext keyUsage=critical,keyCertSign,cRLSign -out "$1/csr.pem"
  openssl ca -batch -config "$1/cnf" -selfsign -keyfile "$1/key.pem" -in "$1/csr.pem" -notext \
    -startdate 20000101000000Z -enddate 21200101000000Z -out "$out/$1.pem"
}
leaf() { # ca name san
  openssl ecparam -name prime256v1 -genkey -noout -out "$out/$2.key"
  openssl req -new -key "$out/$2.key" -subj "/CN=$2" ${3:+-addext subjectAltName=$3} -out csr.pem
  openssl ca -batch -config "$1/cnf" -cert "$out/$1.pem" -keyfile "$1/key.pem" -in csr.pem -notext \
    -startdate 20000101000000Z -enddate 21200101000000Z -out "$out/$2.pem"
}
mkca ca1; mkca ca2
leaf ca1 good "$hosts"
leaf ca1 wronghost DNS:other.example
leaf ca2 untrusted "$hosts"
leaf ca1 client1 ""
leaf ca2 client2 ""
chmod 600 "$out"/*.key
rm -r "$w"
