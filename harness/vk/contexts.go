package vk

import (
	"encoding/json"

	ldcontext "github.com/trustbloc/did-go/doc/ld/context"
)

// ExtContextURL is a context of this kit that defines a few plain terms.
const ExtContextURL = "https://verif.example/context/v1"

// ExtContext is the content of that context: plain terms t0..t11, types T0..T3, tDate, tRef and tList.
const ExtContext = `{"@context": {"@version": 1.1, "id": "@id", "type": "@type", "vx": "https://verif.example/voc#", "xsd": "http://www.w3.org/2001/XMLSchema#", "t0": "vx:t0", "t1": "vx:t1", "t2": "vx:t2", "t3": "vx:t3", "t4": "vx:t4", "t5": "vx:t5", "t6": "vx:t6", "t7": "vx:t7", "t8": "vx:t8", "t9": "vx:t9", "t10": "vx:t10", "t11": "vx:t11", "T0": "vx:T0", "T1": "vx:T1", "T2": "vx:T2", "T3": "vx:T3", "tDate": {"@id": "vx:tDate", "@type": "xsd:dateTime"}, "tRef": {"@id": "vx:tRef", "@type": "@id"}, "tList": {"@id": "vx:tList", "@container": "@list"}, "tStatus": "vx:tStatus"}}`

// DIDConfigContextURL is the context of DID configurations.
const DIDConfigContextURL = "https://identity.foundation/.well-known/did-configuration/v1"

func init() { //nolint:gochecknoinits
	addContext(ExtContextURL, ExtContext)
	addContext(DIDConfigContextURL, `{"@context": [{"@version": 1.1, "@protected": true, "LinkedDomains": "https://identity.foundation/.well-known/resources/did-configuration/#LinkedDomains", "DomainLinkageCredential": "https://identity.foundation/.well-known/resources/did-configuration/#DomainLinkageCredential", "origin": "https://identity.foundation/.well-known/resources/did-configuration/#origin", "linked_dids": "https://identity.foundation/.well-known/resources/did-configuration/#linked_dids"}]}`)
}

func addContext(url, content string) {
	extraContexts = append(extraContexts, ldcontext.Document{URL: url, Content: json.RawMessage(content)})
}
