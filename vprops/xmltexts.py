"""XML texts read by the real expat, with the tree each denotes (namespaces removed, adjacent text joined)."""
TEXTS = [
    ('\n <r xmlns="urn:a" x="1">\n <b> t </b>&#13;<b/>\t</r>\n ', ('r', [('x', '1')], ['\n ', ('b', [], [' t ']), '\r', ('b', [], []), '\t'])),
    ('<?xml version="1.0"?>\n<!-- c --><?p i?><r x=" a\n\tb&#10;c ">a<!-- b -->c<?d e?>d<![CDATA[<&]]]]><![CDATA[>]]></r><!-- after --> \n',
     ('r', [('x', ' a  b\nc ')], ['acd<&]]>'])),
    ('<?xml version="1.0" encoding="iso-8859-1"?><p:r xmlns:p="urn:\xe9" p:\xe9="\xe9">\xe9\u20ac<p:b>\xfc</p:b></p:r>', ('r', [('\xe9', '\xe9')], ['\xe9\u20ac', ('b', [], ['\xfc'])])),
    ('<!DOCTYPE r [<!ENTITY e "x<b>y</b>"><!ENTITY f "&#38;#60;"><!ATTLIST r k CDATA "dflt" i NMTOKEN #IMPLIED>]><r i="  q ">&e;z&f;</r>',
     ('r', [('i', 'q'), ('k', 'dflt')], ['x', ('b', [], ['y']), 'z<'])),
    ('<r>\r\n<b>\r</b>&#xD;&#10;\x85\u2028</r>', ('r', [], ['\n', ('b', [], ['\n']), '\r\n\x85\u2028'])),
    ('<r>\U0001F600&#x1F600;<b x="&lt;&quot;&apos;&gt;&amp;">]]&gt;</b>\ufeff</r>', ('r', [], ['\U0001F600\U0001F600', ('b', [('x', '<"\'>&')], [']]>']), '\ufeff'])),
    ('<a:r xmlns:a="urn:a" xml:space="preserve" xml:lang="en"><b xmlns="u&#10;w" a:c="1">  </b> <c xmlns=""/></a:r>',
     ('r', [('space', 'preserve'), ('lang', 'en')], [('b', [('c', '1')], ['  ']), ' ', ('c', [], [])])),
]
BYTES = [
    ('\n<r>\xe9<b x="\u20ac"> </b>\U0001F600</r>\n'.encode('utf-8'), ('r', [], ['\xe9', ('b', [('x', '\u20ac')], [' ']), '\U0001F600'])),
    ('\ufeff<r>\xe9<b/></r> '.encode('utf-8'), ('r', [], ['\xe9', ('b', [], [])])),
    ('\ufeff<?xml version="1.0" encoding="utf-16"?><r>\xe9<b>\u20ac</b></r>'.encode('utf-16-le'), ('r', [], ['\xe9', ('b', [], ['\u20ac'])])),
    ('<?xml version="1.0" encoding="iso-8859-1"?><r>\xe9<b>\xa0</b></r>'.encode('latin-1'), ('r', [], ['\xe9', ('b', [], ['\xa0'])])),
]
BAD = ['', ' ', '<r>', '<r></s>', '<r>&nope;</r>', '<p:r/>', '<r></r>x', ' <?xml version="1.0"?><r/>', '<r x="1" x="2"/>', '<r>\x01</r>', '<r>&</r>', '<r>]]></r>', '<r/><r/>', b'<r>\xe9</r>', '<r xmlns:p=""/>',
       '<r><b></r></b>', "<r x='<'/>", '<r x=1/>', '<r>a']
