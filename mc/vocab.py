"""The words of HTML, so that nothing that depends on a name is missed."""
ELEMENTS = ('a abbr acronym address applet area article aside audio b base basefont bdi bdo big blink blockquote body br button canvas caption center cite code col '
         'colgroup command data datalist dd del details dfn dialog dir div dl dt em embed fieldset figcaption figure font footer form frame frameset h1 h2 '
         'h3 h4 h5 h6 head header hgroup hr html i iframe img input ins isindex kbd keygen label legend li link main map mark menu menuitem meta meter nav '
         'noframes noscript object ol optgroup option output p param picture pre progress q rp rt ruby s samp script section select small source '
         'span strike strong style sub summary sup svg table tbody td template textarea tfoot th thead time title tr track tt u ul var video wbr '
         'x-y ns:tag foo Br BR STYLE SCRIPT Script Style INPUT').split()

ATTRIBUTES = (
    'abbr accept accept-charset accesskey action align allow allowfullscreen alt archive async autocomplete autofocus autoplay axis background bgcolor border '
    'cellpadding cellspacing challenge char charoff charset checked cite class classid clear code codebase codetype color cols colspan compact content '
    'contenteditable controls coords crossorigin data data-id data-x-y datetime declare default defer dir dirname disabled download draggable dropzone enctype '
    'face for form formaction formenctype formmethod formnovalidate formtarget frame frameborder headers height hidden high href hreflang hspace http-equiv icon '
    'id integrity is ismap itemid itemprop itemref itemscope itemtype keytype kind label lang language link list loading longdesc loop low manifest '
    'marginheight marginwidth max maxlength media method min minlength multiple muted name nohref nomodule nonce noresize noshade novalidate nowrap object onblur '
    'onchange onclick ondblclick onerror onfocus oninput onkeydown onkeypress onkeyup onload onmousedown onmousemove onmouseout onmouseover onmouseup onreset '
    'onselect onsubmit onunload open optimum part pattern ping placeholder playsinline poster preload profile prompt property radiogroup readonly rel required '
    'rev reversed role rows rowspan rules sandbox scheme scope scoped scrolling seamless selected shape size sizes slot span spellcheck src srcdoc srclang '
    'srcset standby start step style summary tabindex target text title translate type typemustmatch usemap valign value valuetype version viewBox vlink vspace '
    'width wrap xml:base xml:lang xml:space xmlns xmlns:xlink aria-hidden aria-label v-if v-bind:x ng-repeat x-on.y d fill stroke-width function test vars each '
    'args with replace strip attrs content_ if else case switch def call block extends import include py Class ID HREF Style').split()
