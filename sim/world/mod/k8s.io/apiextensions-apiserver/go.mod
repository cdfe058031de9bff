module k8s.io/apiextensions-apiserver

go 1.24
