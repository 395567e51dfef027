package cluster

import "k8s.io/client-go/kubernetes"

// VFSetClientset exchanges the kubernetes client of a connection.
func VFSetClientset(c Connection, cs *kubernetes.Clientset) { c.(*client).clientset = cs }
