'use strict';
// A browser for the simulator: runs the real client script of puck_liveview on a document model.
// Commands come one per line as JSON on stdin, one answer per line goes to stdout.

class DOMException_ extends Error {
    constructor(message, name) {
        super(message);
        this.name = name;
    }
}
const hierarchy = (m) => new DOMException_(m, 'HierarchyRequestError');
const notFound = (m) => new DOMException_(m, 'NotFoundError');

class Event_ {
    constructor(type, init) {
        this.type = String(type);
        this.bubbles = !!(init && init.bubbles);
        this.cancelable = !!(init && init.cancelable);
        this.defaultPrevented = false;
        this.target = null;
        this.currentTarget = null;
        this.eventPhase = 0;
        this.isTrusted = false;
        this.timeStamp = 0;
        this.stopped = false;
        this.stoppedNow = false;
        if (init) for (const k of Object.keys(init)) if (!(k in this)) this[k] = init[k];
    }
    get srcElement() { return this.target; }
    preventDefault() { this.defaultPrevented = true; }
    stopPropagation() { this.stopped = true; }
    stopImmediatePropagation() { this.stopped = this.stoppedNow = true; }
    composedPath() { const p = []; for (let n = this.target; n; n = n.parentNode) p.push(n); return p; }
}

class Target {
    constructor() {
        Object.defineProperty(this, 'handlers', { value: [], enumerable: false });
    }
    addEventListener(type, fn, opts) {
        if (fn === null || fn === undefined) return;
        const capture = typeof opts === 'boolean' ? opts : !!(opts && opts.capture);
        type = String(type);
        if (this.handlers.some((h) => h.type === type && h.fn === fn && h.capture === capture)) return;
        this.handlers.push({ type, fn, capture, once: !!(opts && opts.once), signal: opts && opts.signal });
    }
    removeEventListener(type, fn, opts) {
        const capture = typeof opts === 'boolean' ? opts : !!(opts && opts.capture);
        const i = this.handlers.findIndex((h) => h.type === String(type) && h.fn === fn && h.capture === capture);
        if (i >= 0) this.handlers.splice(i, 1);
    }
    invoke(e, phase, report) {
        e.currentTarget = this;
        const call = (fn) => {
            try {
                if (typeof fn === 'function') fn.call(this, e); else fn.handleEvent(e);
            } catch (err) { report(err); }
        };
        const on = this['on' + e.type];
        if (typeof on === 'function' && phase !== 'capture') call(on);
        for (const h of this.handlers.slice()) {
            if (e.stoppedNow) break;
            if (h.type !== e.type || !this.handlers.includes(h)) continue;
            if (h.signal && h.signal.aborted) continue;
            if (phase === 'capture' ? !h.capture : phase === 'bubble' && h.capture) continue;
            if (h.once) this.handlers.splice(this.handlers.indexOf(h), 1);
            call(h.fn);
        }
        e.currentTarget = null;
    }
    dispatchEvent(e) {
        if (!(e instanceof Event_)) throw new TypeError('not an event');
        e.target = this;
        const report = (this.report || (this.ownerDocument && this.ownerDocument.report) || (() => {}));
        const path = [];
        for (let n = this.parentNode; n; n = n.parentNode) path.push(n);
        if (path.length && path[path.length - 1] instanceof Document_) path.push(path[path.length - 1].defaultView);
        for (const n of path.slice().reverse()) if (n && !e.stopped) n.invoke(e, 'capture', report);
        if (!e.stopped) this.invoke(e, 'target', report);
        if (e.bubbles) for (const n of path) if (n && !e.stopped) n.invoke(e, 'bubble', report);
        return !e.defaultPrevented;
    }
}

const listOf = (a) => {
    const l = a.slice();
    l.item = (i) => (i in l ? l[i] : null);
    return l;
};

class Node_ extends Target {
    constructor(doc) {
        super();
        Object.defineProperty(this, 'ownerDocument', { value: doc, writable: true, enumerable: false });
        this.parentNode = null;
        this.kids = [];
    }
    get parentElement() { return this.parentNode instanceof Element_ ? this.parentNode : null; }
    get childNodes() { return listOf(this.kids); }
    get firstChild() { return this.kids[0] || null; }
    get lastChild() { return this.kids[this.kids.length - 1] || null; }
    sibling(d) {
        if (!this.parentNode) return null;
        const k = this.parentNode.kids;
        return k[k.indexOf(this) + d] || null;
    }
    get nextSibling() { return this.sibling(1); }
    get previousSibling() { return this.sibling(-1); }
    hasChildNodes() { return this.kids.length > 0; }
    contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
    getRootNode() { let n = this; while (n.parentNode) n = n.parentNode; return n; }
    get isConnected() { return this.getRootNode() instanceof Document_; }
    isSameNode(n) { return n === this; }
    canHold() { return this instanceof Element_ || this instanceof Fragment_ || this instanceof Document_; }
    insertBefore(n, ref) {
        if (!(n instanceof Node_)) throw new TypeError('parameter 1 is not of type Node');
        if (ref === undefined) throw new TypeError('2 arguments required');
        if (!this.canHold()) throw hierarchy('this node cannot have children');
        if (n.contains(this)) throw hierarchy('the new child contains the parent');
        if (ref !== null && ref.parentNode !== this) throw notFound('the reference is not a child of this node');
        if (ref === n) ref = n.nextSibling;
        const add = n instanceof Fragment_ ? n.kids.slice() : [n];
        for (const x of add) {
            if (x.parentNode) x.parentNode.detach(x);
            const at = ref ? this.kids.indexOf(ref) : this.kids.length;
            this.kids.splice(at, 0, x);
            x.parentNode = this;
        }
        return n;
    }
    detach(n) {
        this.kids.splice(this.kids.indexOf(n), 1);
        n.parentNode = null;
    }
    appendChild(n) { return this.insertBefore(n, null); }
    removeChild(n) {
        if (!(n instanceof Node_)) throw new TypeError('parameter 1 is not of type Node');
        if (n.parentNode !== this) throw notFound('the node to be removed is not a child of this node');
        this.detach(n);
        return n;
    }
    replaceChild(n, old) {
        if (!(n instanceof Node_) || !(old instanceof Node_)) throw new TypeError('not of type Node');
        if (old.parentNode !== this) throw notFound('the node to be replaced is not a child of this node');
        if (n === old) return old;
        let ref = old.nextSibling;
        if (ref === n) ref = n.nextSibling;
        if (n.contains(this)) throw hierarchy('the new child contains the parent');
        this.detach(old);
        this.insertBefore(n, ref);
        return old;
    }
    normalize() {
        for (const k of this.kids.slice()) {
            if (k instanceof Text_) {
                while (k.nextSibling instanceof Text_) {
                    k.data += k.nextSibling.data;
                    this.detach(k.nextSibling);
                }
                if (k.data === '') this.detach(k);
            } else k.normalize();
        }
    }
    get textContent() {
        return this.kids.filter((k) => !(k instanceof Comment_)).map((k) => k.textContent).join('');
    }
    set textContent(v) {
        for (const k of this.kids.slice()) this.detach(k);
        v = v === null ? '' : String(v);
        if (v !== '') this.appendChild(new Text_(this.ownerDocument || this, v));
    }
    get nodeValue() { return null; }
    set nodeValue(_) {}
    // ChildNode and ParentNode
    wrap(nodes) {
        const f = new Fragment_(this.ownerDocument || this);
        for (const n of nodes) f.appendChild(n instanceof Node_ ? n : new Text_(f.ownerDocument, String(n)));
        return f;
    }
    append(...n) { this.appendChild(this.wrap(n)); }
    prepend(...n) { this.insertBefore(this.wrap(n), this.firstChild); }
    replaceChildren(...n) { const f = this.wrap(n); for (const k of this.kids.slice()) this.detach(k); this.appendChild(f); }
    before(...n) { if (this.parentNode) this.parentNode.insertBefore(this.wrap(n), this); }
    after(...n) { if (this.parentNode) { const p = this.parentNode, r = this.nextSibling; p.insertBefore(this.wrap(n), r); } }
    replaceWith(...n) {
        const p = this.parentNode;
        if (!p) return;
        const f = this.wrap(n);
        if (this.parentNode === p) p.replaceChild(f, this); else p.appendChild(f);
    }
    remove() { if (this.parentNode) this.parentNode.detach(this); }
    get children() { return listOf(this.kids.filter((k) => k instanceof Element_)); }
    get childElementCount() { return this.children.length; }
    get firstElementChild() { return this.children[0] || null; }
    get lastElementChild() { const c = this.children; return c[c.length - 1] || null; }
    get nextElementSibling() { let n = this.nextSibling; while (n && !(n instanceof Element_)) n = n.nextSibling; return n; }
    get previousElementSibling() { let n = this.previousSibling; while (n && !(n instanceof Element_)) n = n.previousSibling; return n; }
    // in tree order, without this node
    *elements() {
        for (const k of this.kids) if (k instanceof Element_) { yield k; yield* k.elements(); }
    }
    find(pred) { for (const e of this.elements()) if (pred(e)) return e; return null; }
    getElementById(id) { id = String(id); return id === '' ? null : this.find((e) => e.getAttribute('id') === id); }
    getElementsByTagName(t) { t = String(t).toLowerCase(); return listOf([...this.elements()].filter((e) => t === '*' || e.localName === t)); }
    getElementsByClassName(c) { return listOf([...this.elements()].filter((e) => e.classes().includes(String(c)))); }
    querySelector(s) { const m = selector(s); return this.find(m); }
    querySelectorAll(s) { const m = selector(s); return listOf([...this.elements()].filter(m)); }
}
for (const [k, v] of Object.entries({ ELEMENT_NODE: 1, ATTRIBUTE_NODE: 2, TEXT_NODE: 3, COMMENT_NODE: 8, DOCUMENT_NODE: 9, DOCUMENT_FRAGMENT_NODE: 11 })) {
    Node_[k] = v;
    Node_.prototype[k] = v;
}

const unescapeCss = (s) => s.replace(/\\([0-9a-fA-F]{1,6})\s?/g, (_, h) => String.fromCodePoint(parseInt(h, 16))).replace(/\\(.)/g, '$1');
// compound selectors, descendants and children, lists of these
function selector(s) {
    const alts = String(s).split(',').map((one) => {
        const steps = [];
        let rest = one.trim();
        let comb = ' ';
        while (rest) {
            const m = /^((?:\*|[a-zA-Z][\w-]*)?(?:#(?:\\.|[^\s>.#\[:\\])+|\.(?:\\.|[\w-])+|\[[^\]]+\])*)\s*(>)?\s*/.exec(rest);
            if (!m || !m[1]) throw new DOMException_(`'${s}' is not a valid selector`, 'SyntaxError');
            steps.push({ comb, tests: compound(m[1]) });
            comb = m[2] ? '>' : ' ';
            rest = rest.slice(m[0].length);
        }
        return steps;
    });
    const ok = (e, steps, i) => {
        if (!(e instanceof Element_) || !steps[i].tests.every((t) => t(e))) return false;
        if (i === 0) return true;
        if (steps[i].comb === '>') return ok(e.parentNode, steps, i - 1);
        for (let p = e.parentNode; p; p = p.parentNode) if (ok(p, steps, i - 1)) return true;
        return false;
    };
    return (e) => alts.some((steps) => ok(e, steps, steps.length - 1));
}
function compound(s) {
    const tests = [];
    const re = /#((?:\\[0-9a-fA-F]{1,6}\s?|\\.|[^\s>.#\[:\\])+)|\.((?:\\.|[\w-])+)|\[\s*([\w-]+)\s*(?:=\s*(?:"([^"]*)"|'([^']*)'|([^\]\s]*)))?\s*\]|([a-zA-Z][\w-]*)|\*/g;
    for (let m; (m = re.exec(s));) {
        if (m[1] !== undefined) { const v = unescapeCss(m[1]); tests.push((e) => e.getAttribute('id') === v); }
        else if (m[2] !== undefined) { const v = unescapeCss(m[2]); tests.push((e) => e.classes().includes(v)); }
        else if (m[3] !== undefined) {
            const k = m[3], v = m[4] !== undefined ? m[4] : m[5] !== undefined ? m[5] : m[6];
            tests.push((e) => (v === undefined ? e.hasAttribute(k) : e.getAttribute(k) === v));
        } else if (m[7] !== undefined) { const v = m[7].toLowerCase(); tests.push((e) => e.localName === v); }
    }
    return tests;
}

class CharacterData_ extends Node_ {
    constructor(doc, data) { super(doc); this.data = String(data); }
    get textContent() { return this.data; }
    set textContent(v) { this.data = v === null ? '' : String(v); }
    get nodeValue() { return this.data; }
    set nodeValue(v) { this.data = v === null ? '' : String(v); }
    get length() { return this.data.length; }
    appendData(s) { this.data += s; }
    replaceData(o, n, s) { this.data = this.data.slice(0, o) + s + this.data.slice(o + n); }
}
class Text_ extends CharacterData_ {
    get nodeType() { return 3; }
    get nodeName() { return '#text'; }
    get wholeText() { return this.data; }
    cloneNode() { return new Text_(this.ownerDocument, this.data); }
}
class Comment_ extends CharacterData_ {
    get nodeType() { return 8; }
    get nodeName() { return '#comment'; }
    cloneNode() { return new Comment_(this.ownerDocument, this.data); }
}
class Fragment_ extends Node_ {
    get nodeType() { return 11; }
    get nodeName() { return '#document-fragment'; }
    cloneNode(deep) {
        const f = new Fragment_(this.ownerDocument);
        if (deep) for (const k of this.kids) f.appendChild(k.cloneNode(true));
        return f;
    }
}

const VOID = new Set(['area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'source', 'track', 'wbr']);
const escText = (s) => s.replace(/&/g, '&amp;').replace(/\u00a0/g, '&nbsp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');
const escAttr = (s) => s.replace(/&/g, '&amp;').replace(/\u00a0/g, '&nbsp;').replace(/"/g, '&quot;');
const unesc = (s) => s.replace(/&(#\d+|#x[0-9a-fA-F]+|amp|lt|gt|quot|apos|nbsp);/g, (_, n) =>
    n[0] === '#' ? String.fromCodePoint(n[1] === 'x' ? parseInt(n.slice(2), 16) : parseInt(n.slice(1), 10))
        : { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'", nbsp: '\u00a0' }[n]);
const html = (n) => {
    if (n instanceof Text_) return escText(n.data);
    if (n instanceof Comment_) return `<!--${n.data}-->`;
    const a = [...n.attrs].map(([k, v]) => ` ${k}="${escAttr(v)}"`).join('');
    return `<${n.localName}${a}>` + (VOID.has(n.localName) ? '' : n.kids.map(html).join('') + `</${n.localName}>`);
};
// enough for what the serialiser above writes, and for simple pages
function parseHtml(doc, into, s) {
    const stack = [into];
    const top = () => stack[stack.length - 1];
    const re = /<!--([\s\S]*?)-->|<!([^>]*)>|<\/([a-zA-Z][^\s>]*)[^>]*>|<([a-zA-Z][^\s\/>]*)((?:\s+[^\s=>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>"']*))?)*)\s*(\/?)>|([^<]+|<)/g;
    let raw = null;
    for (let m; (m = re.exec(s));) {
        if (m[1] !== undefined) top().appendChild(new Comment_(doc, m[1]));
        else if (m[2] !== undefined) continue;
        else if (m[3] !== undefined) {
            const t = m[3].toLowerCase();
            for (let i = stack.length - 1; i > 0; i--) if (stack[i].localName === t) { stack.length = i; break; }
        } else if (m[4] !== undefined) {
            const e = doc.createElement(m[4]);
            const ar = /([^\s=\/]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>"']*)))?/g;
            for (let a; (a = ar.exec(m[5]));) {
                const v = a[2] !== undefined ? a[2] : a[3] !== undefined ? a[3] : a[4] !== undefined ? a[4] : '';
                if (!e.hasAttribute(a[1])) e.setAttribute(a[1], unesc(v));
            }
            top().appendChild(e);
            if (!VOID.has(e.localName)) stack.push(e);
        } else {
            const t = unesc(m[7]);
            const l = top().lastChild;
            if (l instanceof Text_) l.data += t; else top().appendChild(new Text_(doc, t));
        }
    }
}

class Element_ extends Node_ {
    constructor(doc, name) {
        super(doc);
        this.localName = name;
        this.attrs = new Map();
        this.dirty = null;
    }
    get nodeType() { return 1; }
    get tagName() { return this.localName.toUpperCase(); }
    get nodeName() { return this.tagName; }
    get namespaceURI() { return 'http://www.w3.org/1999/xhtml'; }
    name(k) {
        k = String(k);
        if (!/^[^\s\0\/>="']+$/.test(k)) throw new DOMException_(`'${k}' is not a valid attribute name`, 'InvalidCharacterError');
        return k.toLowerCase();
    }
    getAttribute(k) { k = String(k).toLowerCase(); return this.attrs.has(k) ? this.attrs.get(k) : null; }
    setAttribute(k, v) {
        if (arguments.length < 2) throw new TypeError('2 arguments required');
        this.attrs.set(this.name(k), String(v));
    }
    removeAttribute(k) { this.attrs.delete(String(k).toLowerCase()); }
    hasAttribute(k) { return this.attrs.has(String(k).toLowerCase()); }
    hasAttributes() { return this.attrs.size > 0; }
    toggleAttribute(k, f) {
        const has = this.hasAttribute(k);
        if (f === undefined ? !has : f) { if (!has) this.setAttribute(k, ''); return true; }
        this.removeAttribute(k);
        return false;
    }
    getAttributeNames() { return [...this.attrs.keys()]; }
    attr(k) {
        const e = this;
        return { name: k, nodeName: k, localName: k, nodeType: 2, specified: true, ownerElement: e,
            get value() { return e.attrs.get(k); }, set value(v) { e.attrs.set(k, String(v)); },
            get nodeValue() { return e.attrs.get(k); }, set nodeValue(v) { e.attrs.set(k, String(v)); },
            get textContent() { return e.attrs.get(k); } };
    }
    get attributes() {
        // live, as in a browser
        const e = this;
        const at = (i) => { const k = [...e.attrs.keys()][i]; return k === undefined ? undefined : e.attr(k); };
        return new Proxy({}, {
            get(_, p) {
                if (p === 'length') return e.attrs.size;
                if (p === 'item') return (i) => at(i) || null;
                if (p === 'getNamedItem') return (k) => (e.hasAttribute(k) ? e.attr(String(k).toLowerCase()) : null);
                if (p === 'setNamedItem') return (a) => { e.setAttribute(a.name, a.value); return null; };
                if (p === 'removeNamedItem') return (k) => e.removeAttribute(k);
                if (p === Symbol.iterator) return function* () { for (const k of [...e.attrs.keys()]) yield e.attr(k); };
                if (typeof p === 'string' && /^\d+$/.test(p)) return at(+p);
                return undefined;
            },
            has(_, p) { return typeof p === 'string' && /^\d+$/.test(p) && +p < e.attrs.size; },
            ownKeys() { return [...e.attrs.keys()].map((_, i) => String(i)); },
            getOwnPropertyDescriptor(_, p) { const v = at(+p); return v ? { value: v, enumerable: true, configurable: true } : undefined; },
        });
    }
    getAttributeNode(k) { return this.hasAttribute(k) ? this.attr(String(k).toLowerCase()) : null; }
    setAttributeNode(a) { this.setAttribute(a.name, a.value); return null; }
    removeAttributeNode(a) { this.removeAttribute(a.name); return a; }
    get id() { return this.getAttribute('id') || ''; }
    set id(v) { this.setAttribute('id', v); }
    get className() { return this.getAttribute('class') || ''; }
    set className(v) { this.setAttribute('class', v); }
    classes() { return this.className.split(/\s+/).filter(Boolean); }
    get classList() {
        const e = this;
        return {
            add(...c) { e.className = [...new Set([...e.classes(), ...c])].join(' '); },
            remove(...c) { e.className = e.classes().filter((x) => !c.includes(x)).join(' '); },
            contains(c) { return e.classes().includes(c); },
            toggle(c) { if (e.classes().includes(c)) { this.remove(c); return false; } this.add(c); return true; },
        };
    }
    get dataset() {
        const e = this;
        const k = (p) => 'data-' + p.replace(/[A-Z]/g, (c) => '-' + c.toLowerCase());
        return new Proxy({}, {
            get: (_, p) => (e.hasAttribute(k(p)) ? e.getAttribute(k(p)) : undefined),
            set: (_, p, v) => { e.setAttribute(k(p), v); return true; },
            deleteProperty: (_, p) => { e.removeAttribute(k(p)); return true; },
        });
    }
    field() { return this.localName === 'input' || this.localName === 'textarea' || this.localName === 'select'; }
    get value() {
        if (!this.field()) return this.plain;
        if (this.dirty !== null) return this.dirty;
        return this.localName === 'textarea' ? this.textContent : this.getAttribute('value') || '';
    }
    set value(v) { if (this.field()) this.dirty = v === null ? '' : String(v); else this.plain = v; }
    get defaultValue() { return this.getAttribute('value') || ''; }
    set defaultValue(v) { this.setAttribute('value', v); }
    get type() { return this.getAttribute('type') || (this.localName === 'input' ? 'text' : undefined); }
    set type(v) { this.setAttribute('type', v); }
    get innerText() { return this.textContent; }
    set innerText(v) { this.textContent = v; }
    get innerHTML() { return this.kids.map(html).join(''); }
    set innerHTML(v) {
        for (const k of this.kids.slice()) this.detach(k);
        parseHtml(this.ownerDocument, this, String(v));
    }
    get outerHTML() { return html(this); }
    set outerHTML(v) {
        const f = new Fragment_(this.ownerDocument);
        parseHtml(this.ownerDocument, f, String(v));
        this.parentNode.replaceChild(f, this);
    }
    place(where) {
        switch (String(where).toLowerCase()) {
            case 'beforebegin': return [this.parentNode, this];
            case 'afterbegin': return [this, this.firstChild];
            case 'beforeend': return [this, null];
            case 'afterend': return [this.parentNode, this.nextSibling];
            default: throw new DOMException_('bad position', 'SyntaxError');
        }
    }
    insertAdjacentElement(w, e) { const [p, r] = this.place(w); p.insertBefore(e, r); return e; }
    insertAdjacentText(w, t) { const [p, r] = this.place(w); p.insertBefore(new Text_(this.ownerDocument, t), r); }
    insertAdjacentHTML(w, t) {
        const f = new Fragment_(this.ownerDocument);
        parseHtml(this.ownerDocument, f, String(t));
        const [p, r] = this.place(w);
        p.insertBefore(f, r);
    }
    matches(s) { return selector(s)(this); }
    closest(s) { const m = selector(s); for (let e = this; e instanceof Element_; e = e.parentNode) if (m(e)) return e; return null; }
    cloneNode(deep) {
        const e = new Element_(this.ownerDocument, this.localName);
        for (const [k, v] of this.attrs) e.attrs.set(k, v);
        e.dirty = this.dirty;
        if (deep) for (const k of this.kids) e.appendChild(k.cloneNode(true));
        return e;
    }
    click() { this.dispatchEvent(new Event_('click', { bubbles: true })); }
    focus() { this.ownerDocument.activeElement = this; }
    blur() {}
}

class Document_ extends Node_ {
    constructor() {
        super(null);
        this.readyState = 'loading';
        this.activeElement = null;
    }
    get nodeType() { return 9; }
    get nodeName() { return '#document'; }
    get documentElement() { return this.children[0] || null; }
    get head() { return this.find((e) => e.localName === 'head'); }
    get body() { return this.find((e) => e.localName === 'body'); }
    createElement(n) {
        n = String(n);
        if (!/^[a-zA-Z][^\s\0\/>]*$/.test(n)) throw new DOMException_(`'${n}' is not a valid element name`, 'InvalidCharacterError');
        return new Element_(this, n.toLowerCase());
    }
    createElementNS(_, n) { return this.createElement(n); }
    createTextNode(t) { return new Text_(this, t); }
    createComment(t) { return new Comment_(this, t); }
    createDocumentFragment() { return new Fragment_(this); }
    createEvent() { const e = new Event_('', {}); e.initEvent = (t, b) => { e.type = t; e.bubbles = !!b; }; return e; }
    importNode(n, deep) { return n.cloneNode(deep); }
    adoptNode(n) { n.remove(); return n; }
}

class Browser {
    constructor(host, path, page) {
        const me = this;
        this.errors = [];
        this.sockets = [];
        this.tasks = [];
        this.out = [];
        const report = (e) => me.errors.push(String((e && e.message) || e));
        const doc = (this.document = new Document_());
        doc.report = report;
        parseHtml(doc, doc, page);
        if (!doc.documentElement) doc.appendChild(doc.createElement('html'));
        if (!doc.body) doc.documentElement.appendChild(doc.createElement('body'));
        const win = (this.window = new Target());
        win.report = report;
        doc.defaultView = win;
        const location = { host, hostname: host.split(':')[0], port: host.split(':')[1] || '', pathname: path, protocol: 'http:', origin: 'http://' + host,
            href: 'http://' + host + path, search: '', hash: '', toString() { return this.href; }, reload() {}, assign() {}, replace() {} };
        this.report = report;
        class WebSocket_ extends Target {
            constructor(url, protocols) {
                super();
                this.url = String(url);
                this.protocols = protocols;
                this.readyState = 0;
                this.binaryType = 'blob';
                this.bufferedAmount = 0;
                this.extensions = '';
                this.protocol = '';
                this.report = report;
                me.sockets.push(this);
            }
            send(d) {
                if (this.readyState === 0) throw new DOMException_('still connecting', 'InvalidStateError');
                if (this.readyState === 1 && this === me.sockets[0]) me.out.push(String(d));
            }
            close() { this.readyState = 3; }
        }
        Object.assign(WebSocket_, { CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 });
        Object.assign(WebSocket_.prototype, { CONNECTING: 0, OPEN: 1, CLOSING: 2, CLOSED: 3 });
        const quiet = () => {};
        const later = (f, _, ...a) => { me.tasks.push(() => (typeof f === 'function' ? f(...a) : null)); return me.tasks.length; };
        const globals = {
            window: win, self: win, globalThis: win, top: win, parent: win, document: doc, location, WebSocket: WebSocket_,
            console: new Proxy({}, { get: () => quiet }),
            Node: Node_, Element: Element_, HTMLElement: Element_, HTMLInputElement: Element_, Text: Text_, Comment: Comment_, Document: Document_, DocumentFragment: Fragment_,
            Event: Event_, CustomEvent: Event_, InputEvent: Event_, MouseEvent: Event_, MessageEvent: Event_, EventTarget: Target, DOMException: DOMException_,
            setTimeout: later, setInterval: () => 0, clearTimeout: quiet, clearInterval: quiet, requestAnimationFrame: later, queueMicrotask: (f) => later(f), alert: quiet,
            addEventListener: (...a) => win.addEventListener(...a), removeEventListener: (...a) => win.removeEventListener(...a),
            history: { pushState: quiet, replaceState: quiet }, navigator: { userAgent: 'simulated' }, performance: { now: () => 0 },
            CSS: { escape: (s) => String(s).replace(/[^\w-]/g, (c) => '\\' + c).replace(/^\d/, (c) => '\\3' + c + ' ') },
            localStorage: { getItem: () => null, setItem: quiet }, sessionStorage: { getItem: () => null, setItem: quiet },
        };
        Object.assign(win, globals);
        this.globals = globals;
    }
    run(src) {
        try {
            const f = compiled(src, Object.keys(this.globals));
            f.apply(this.window, Object.values(this.globals));
        } catch (e) { this.report(e); }
    }
    flush() {
        for (let i = 0; this.tasks.length && i < 1000; i++) {
            try { this.tasks.shift()(); } catch (e) { this.report(e); }
        }
    }
    loaded() {
        this.document.readyState = 'complete';
        this.document.dispatchEvent(new Event_('DOMContentLoaded', { bubbles: true }));
        const e = new Event_('load');
        this.window.dispatchEvent(e);
    }
    socket(type, init) {
        const s = this.sockets[0];
        if (s) s.dispatchEvent(new Event_(type, init));
    }
    // the document's content, in a canonical form
    dom() {
        const node = (e) => {
            const a = [...e.attrs].filter(([k]) => k !== 'id').sort((x, y) => (x[0] < y[0] ? -1 : x[0] > y[0] ? 1 : 0));
            const k = [];
            for (const c of e.kids) {
                if (c instanceof Element_) k.push(node(c));
                else if (c instanceof Text_ && c.data !== '') {
                    if (typeof k[k.length - 1] === 'string') k[k.length - 1] += c.data; else k.push(c.data);
                }
            }
            return [e.localName, a, k];
        };
        const b = node(this.document.body)[2].filter((c) => typeof c !== 'string' || c.trim() !== '');
        return JSON.stringify(b);
    }
    list() { return [...this.document.body.elements()]; }
    fire(e, type, value) {
        if (value !== undefined && value !== null) e.value = value;
        e.dispatchEvent(new Event_(type, { bubbles: true, cancelable: true }));
    }
}
const cache = new Map();
function compiled(src, names) {
    const k = names.join() + '\0' + src;
    if (!cache.has(k)) cache.set(k, new Function(...names, src));
    return cache.get(k);
}

const browsers = new Map();
function perform(c) {
    if (c.cmd === 'reset') { browsers.clear(); return {}; }
    if (c.cmd === 'new') {
        const b = new Browser(c.host, c.path, c.page);
        browsers.set(c.b, b);
        return { scripts: [...b.document.elements()].filter((e) => e.localName === 'script').map((e) => e.getAttribute('src') || '') };
    }
    const b = browsers.get(c.b);
    switch (c.cmd) {
        case 'script':
            b.run(c.src);
            b.loaded();
            b.flush();
            return { urls: b.sockets.map((s) => s.url), errors: b.errors.splice(0) };
        case 'open':
            if (b.sockets[0]) b.sockets[0].readyState = 1;
            b.socket('open');
            break;
        case 'msg':
            b.socket('message', { data: c.data, origin: '' });
            break;
        case 'close':
            if (b.sockets[0]) b.sockets[0].readyState = 3;
            b.socket('close', { code: 1000, wasClean: true });
            break;
        case 'fire': {
            const l = b.list();
            if (l.length) b.fire(l[c.nth % l.length], c.type, c.value);
            break;
        }
        case 'probe': {
            // what every element sends for every event, with nothing getting out
            b.flush();
            const keep = b.out.splice(0);
            const all = b.list().map((e) => {
                const was = e.dirty;
                const r = ['click', 'input', 'submit'].map((t) => {
                    b.fire(e, t, t === 'input' ? 'probe' : undefined);
                    b.flush();
                    return b.out.splice(0);
                });
                e.dirty = was;
                delete e.plain;
                return r;
            });
            b.out = keep;
            b.errors = [];
            return { probe: all };
        }
        default:
            throw new Error('unknown command ' + c.cmd);
    }
    b.flush();
    return { sent: b.out.splice(0), errors: b.errors.splice(0), dom: b.dom(), n: b.list().length };
}

const turn = () => new Promise((f) => setImmediate(f));
async function main() {
    let buf = '';
    process.stdin.setEncoding('utf8');
    for await (const chunk of process.stdin) {
        buf += chunk;
        for (let i; (i = buf.indexOf('\n')) >= 0;) {
            const line = buf.slice(0, i);
            buf = buf.slice(i + 1);
            let r;
            try {
                const c = JSON.parse(line);
                r = perform(c);
                if (c.cmd !== 'reset' && c.cmd !== 'new') {
                    await turn();
                    const b = browsers.get(c.b);
                    b.flush();
                    if (r.sent) {
                        r.sent.push(...b.out.splice(0));
                        r.dom = b.dom();
                    }
                }
            } catch (e) { r = { fatal: String(e.stack || e) }; }
            process.stdout.write(JSON.stringify(r) + '\n');
        }
    }
}
main();
