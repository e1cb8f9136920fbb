package main

func init() {
	codec := func(id, title, enc, dec, typ string, fs []field) {
		register(&Check{
			ID: id, Title: title, Floor: 60,
			Rule: "Abstract interpretation of the encoder and the decoder (value provenance with interval facts, path sensitive): the bytes written for every shape of present fields must be exactly the records of the specification's table, and the fields decoded from exactly those records must be the values they carry.",
			Run: func(c *Ctx) {
				e, d := c.R.Func("lnwire", enc), c.R.Func("lnwire", dec)
				c.Guard("encode", func() { c.encodeFields("encode", e, c.R.Type("lnwire", typ), fs) })
				c.Guard("decode", func() { c.decodeFields("decode", d, fs) })
				c.Guard("malformed", func() { c.malformed("malformed", d, fs) })
			},
		})
	}
	codec("W01", "offer codec", "EncodeOffer", "DecodeOffer", "Offer", offerFields)
	codec("W02", "invoice codec", "EncodeInvoice", "DecodeInvoice", "Invoice", invoiceFields)
	codec("W03", "invoice request codec", "EncodeInvoiceRequest", "DecodeInvoiceRequest", "InvoiceRequest", invoiceRequestFields)
}
