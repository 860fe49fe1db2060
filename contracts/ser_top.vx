//@ fn to_document ret r
    ensures doc_fits(value.tree()) ==> r is Ok, r matches Ok(d) ==> doc_wrote(d.nodes@, value.tree()) && d.format is None && bare_doc(d),
//@ end
