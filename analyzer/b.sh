export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
cd /verif/analyzer && go vet . && go build -o /tmp/lochk . 
